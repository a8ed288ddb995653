//! Logging to the virtual process's standard error.
pub struct StdErrLog {
    module: Option<String>,
    verbosity: usize,
}
pub fn new() -> StdErrLog {
    StdErrLog { module: None, verbosity: 0 }
}
impl StdErrLog {
    pub fn module<T: Into<String>>(&mut self, m: T) -> &mut StdErrLog {
        self.module = Some(m.into());
        self
    }
    pub fn verbosity<V: Into<LogV>>(&mut self, v: V) -> &mut StdErrLog {
        self.verbosity = v.into().0;
        self
    }
    pub fn quiet(&mut self, _: bool) -> &mut StdErrLog {
        self
    }
    pub fn init(&mut self) -> Result<(), log::SetLoggerError> {
        let p = vstd::world::cur_proc();
        p.log_module = self.module.clone();
        p.log_verbosity = self.verbosity + 1;
        p.logger = true;
        Ok(())
    }
}
pub struct LogV(usize);
impl From<usize> for LogV {
    fn from(x: usize) -> LogV {
        LogV(x)
    }
}
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use vstd::world::*;
        if !active() || w().cur == usize::MAX {
            return;
        }
        let p = cur_proc();
        let ok = match &p.log_module {
            Some(m) => r.target() == m.as_str() || r.target().starts_with(&format!("{m}::")),
            None => true,
        };
        if !ok || !p.logger || r.level() > p.log_max {
            return;
        }
        let msg = r.args().to_string();
        p.logs.push((r.level(), msg.clone()));
        if (r.level() as usize) < p.log_verbosity + 1 && !p.null_io {
            p.stderr.extend_from_slice(format!("{} - {}\n", r.level(), msg).as_bytes());
        }
        let pid = p.pid;
        // What goes on in detail matters only if it might tell what nobody may know.
        let odd = || msg.contains("zzq") || msg.contains("SEC") || msg.split(|c: char| !c.is_ascii_alphanumeric() && !"-_+=".contains(c)).any(|x| x.len() >= 30);
        if p.server && (r.level() <= log::Level::Warn || odd()) {
            sys(SysEv::Log { pid, level: r.level(), msg: &msg });
        }
    }
    fn flush(&self) {}
}
/// Install the one logger all virtual processes share.
pub fn install() {
    let _ = log::set_boxed_logger(Box::new(L));
    log::set_max_level(log::LevelFilter::Trace);
}
