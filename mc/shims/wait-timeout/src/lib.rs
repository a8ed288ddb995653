//! `wait_timeout` for virtual child processes.
use std::{io, process::ExitStatus, time::Duration};
pub trait ChildExt {
    fn wait_timeout_ms(&mut self, ms: u32) -> io::Result<Option<ExitStatus>> {
        self.wait_timeout(Duration::from_millis(ms as u64))
    }
    fn wait_timeout(&mut self, dur: Duration) -> io::Result<Option<ExitStatus>>;
}
impl ChildExt for vstd::process::Child {
    fn wait_timeout(&mut self, dur: Duration) -> io::Result<Option<ExitStatus>> {
        drop(self.stdin.take());
        self.wait_deadline(vstd::world::deadline(dur))
    }
}
