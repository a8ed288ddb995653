//! syslog in the simulated world: what is sent to it is recorded like any other log message.
#[derive(Default)]
#[allow(non_camel_case_types)]
pub enum Facility {
    #[default]
    LOG_USER,
    LOG_DAEMON,
}
#[derive(Default)]
pub struct Formatter3164 {
    pub process: String,
    pub facility: Facility,
    pub hostname: Option<String>,
    pub pid: u32,
}
pub struct Logger;
pub fn unix(_: Formatter3164) -> Result<Logger, std::io::Error> {
    let w = vstd::world::w();
    match w.fs.faults.iter().position(|x| x.0 == "syslog") {
        Some(i) => Err(std::io::Error::from_raw_os_error(w.fs.faults.remove(i).1)),
        None => Ok(Logger),
    }
}
pub struct BasicLogger;
impl BasicLogger {
    pub fn new(_: Logger) -> BasicLogger {
        BasicLogger
    }
}
impl log::Log for BasicLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {}
    fn flush(&self) {}
}
