//! The `log` crate, with one logger per virtual process.
pub use reallog::*;
pub fn set_boxed_logger(l: Box<dyn Log>) -> Result<(), SetLoggerError> {
    let p = vstd::world::cur_proc();
    if p.logger {
        // There is one already, so that this fails as it must.
        return reallog::set_boxed_logger(l);
    }
    p.logger = true;
    p.log_module = None;
    p.log_verbosity = 0;
    Ok(())
}
pub fn set_logger(l: &'static dyn Log) -> Result<(), SetLoggerError> {
    let _ = l;
    set_boxed_logger(Box::new(Nop))
}
pub fn set_max_level(l: LevelFilter) {
    vstd::world::cur_proc().log_max = l;
}
pub fn max_level() -> LevelFilter {
    vstd::world::cur_proc().log_max
}
struct Nop;
impl Log for Nop {
    fn enabled(&self, _: &Metadata) -> bool {
        true
    }
    fn log(&self, _: &Record) {}
    fn flush(&self) {}
}
