//! Child processes (shell commands) are objects of the environment; arguments, environment and exit
//! belong to virtual processes.
use crate::world::{block, cur_pid, cur_proc, exit_proc, key, point, sys, touch, w, wake, with_env, SpawnReq, SpawnRes, SysEv, K_CHILD};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::io;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{ExitStatus, Output};

pub struct ChildSt {
    pub exit: Option<i32>,
    pub held: bool,
    pub reaped: bool,
    pub out: Vec<u8>,
    pub h: u64,
    pub pid: usize,
}

pub fn exit(code: i32) -> ! {
    point("exit");
    exit_proc(cur_pid(), code);
    unreachable!()
}
pub fn abort() -> ! {
    exit_proc(cur_pid(), 134);
    unreachable!()
}
pub fn id() -> u32 {
    1000 + cur_pid() as u32
}

#[derive(Debug)]
pub struct Stdio(#[allow(dead_code)] u8);
impl Stdio {
    pub fn null() -> Stdio {
        Stdio(0)
    }
    pub fn piped() -> Stdio {
        Stdio(1)
    }
    pub fn inherit() -> Stdio {
        Stdio(2)
    }
}

#[derive(Debug)]
pub struct Command {
    prog: OsString,
    args: Vec<OsString>,
    env: Vec<(OsString, Option<OsString>)>,
    clear: bool,
}
impl Command {
    pub fn new<S: AsRef<OsStr>>(p: S) -> Command {
        Command { prog: p.as_ref().to_owned(), args: vec![], env: vec![], clear: false }
    }
    pub fn arg<S: AsRef<OsStr>>(&mut self, a: S) -> &mut Command {
        self.args.push(a.as_ref().to_owned());
        self
    }
    pub fn args<I, S>(&mut self, a: I) -> &mut Command
    where
        I: IntoIterator<Item = S>,
        S: AsRef<OsStr>,
    {
        for x in a {
            self.args.push(x.as_ref().to_owned());
        }
        self
    }
    pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, k: K, v: V) -> &mut Command {
        self.env.push((k.as_ref().to_owned(), Some(v.as_ref().to_owned())));
        self
    }
    pub fn envs<I, K, V>(&mut self, i: I) -> &mut Command
    where
        I: IntoIterator<Item = (K, V)>,
        K: AsRef<OsStr>,
        V: AsRef<OsStr>,
    {
        for (k, v) in i {
            self.env(k, v);
        }
        self
    }
    pub fn env_remove<K: AsRef<OsStr>>(&mut self, k: K) -> &mut Command {
        self.env.push((k.as_ref().to_owned(), None));
        self
    }
    pub fn env_clear(&mut self) -> &mut Command {
        self.clear = true;
        self.env.clear();
        self
    }
    pub fn current_dir<P: AsRef<Path>>(&mut self, _: P) -> &mut Command {
        self
    }
    pub fn stdin<T: Into<Stdio>>(&mut self, _: T) -> &mut Command {
        self
    }
    pub fn stdout<T: Into<Stdio>>(&mut self, _: T) -> &mut Command {
        self
    }
    pub fn stderr<T: Into<Stdio>>(&mut self, _: T) -> &mut Command {
        self
    }
    pub fn process_group(&mut self, _: i32) -> &mut Command {
        self
    }
    pub fn get_program(&self) -> &OsStr {
        &self.prog
    }
    pub fn spawn(&mut self) -> io::Result<Child> {
        point("proc_spawn");
        let mut env: BTreeMap<String, String> = if self.clear { BTreeMap::new() } else { cur_proc().env.clone() };
        for (k, v) in &self.env {
            let k = k.to_string_lossy().into_owned();
            match v {
                Some(v) => {
                    // As the real thing: a NUL byte cannot be passed to a process.
                    if v.as_encoded_bytes().contains(&0) {
                        return Err(io::Error::new(io::ErrorKind::InvalidInput, "nul byte found in provided data"));
                    }
                    env.insert(k, v.to_string_lossy().into_owned());
                }
                None => {
                    env.remove(&k);
                }
            }
        }
        if self.args.iter().any(|a| a.as_encoded_bytes().contains(&0)) {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "nul byte found in provided data"));
        }
        let id = w().children.len();
        w().children.push(ChildSt { exit: None, held: false, reaped: false, out: vec![], h: 0, pid: cur_pid() });
        let req = SpawnReq {
            id,
            pid: cur_pid(),
            prog: self.prog.to_string_lossy().into_owned(),
            args: self.args.iter().map(|x| x.to_string_lossy().into_owned()).collect(),
            env,
        };
        let mut h = w().h_env;
        touch(&mut h, 21);
        w().h_env = h;
        let r = with_env(|e| e.spawn(req));
        match r {
            SpawnRes::Exit(c) => end_child(id, c, false),
            SpawnRes::Hold => w().children[id].held = true,
            SpawnRes::Fail(e) => {
                w().children[id].exit = Some(-1);
                return Err(io::Error::from_raw_os_error(e));
            }
        }
        Ok(Child { id, stdin: None, stdout: None, stderr: None })
    }
    pub fn output(&mut self) -> io::Result<Output> {
        self.spawn()?.wait_with_output()
    }
    pub fn status(&mut self) -> io::Result<ExitStatus> {
        self.spawn()?.wait()
    }
}
/// A shell command ends: `code` is an exit status, or minus a signal number.
pub fn end_child(id: usize, code: i32, killed: bool) {
    let c = &mut w().children[id];
    if c.exit.is_some() {
        return;
    }
    c.exit = Some(code);
    let mut h = c.h;
    touch(&mut h, 22u64.wrapping_add(code as u64));
    w().children[id].h = h;
    sys(SysEv::ChildEnd { id, code, killed });
    wake(key(K_CHILD, id));
}
fn status(code: i32) -> ExitStatus {
    if code < 0 {
        ExitStatus::from_raw(-code)
    } else {
        ExitStatus::from_raw(code << 8)
    }
}

macro_rules! pipe {
    ($($n:ident)*) => { $(
        #[derive(Debug)]
        pub struct $n(());
        impl io::Read for $n { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Ok(0) } }
        impl io::Write for $n {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> { Ok(b.len()) }
            fn flush(&mut self) -> io::Result<()> { Ok(()) }
        }
    )* };
}
pipe!(ChildStdin ChildStdout ChildStderr);

#[derive(Debug)]
pub struct Child {
    id: usize,
    pub stdin: Option<ChildStdin>,
    pub stdout: Option<ChildStdout>,
    pub stderr: Option<ChildStderr>,
}
impl Child {
    pub fn id(&self) -> u32 {
        5000 + self.id as u32
    }
    pub fn kill(&mut self) -> io::Result<()> {
        point("kill");
        if w().children[self.id].exit.is_none() {
            end_child(self.id, -9, true);
        }
        Ok(())
    }
    fn obs(&self) {
        let mut h = w().children[self.id].h;
        touch(&mut h, 30);
        w().children[self.id].h = h;
    }
    pub fn try_wait(&mut self) -> io::Result<Option<ExitStatus>> {
        point("try_wait");
        self.obs();
        Ok(w().children[self.id].exit.map(status))
    }
    pub fn wait(&mut self) -> io::Result<ExitStatus> {
        Ok(self.wait_deadline(None)?.unwrap())
    }
    pub fn wait_deadline(&mut self, d: Option<u64>) -> io::Result<Option<ExitStatus>> {
        point("wait");
        loop {
            if let Some(c) = w().children[self.id].exit {
                self.obs();
                w().children[self.id].reaped = true;
                return Ok(Some(status(c)));
            }
            if block(key(K_CHILD, self.id), d, "child") {
                return Ok(None);
            }
        }
    }
    pub fn wait_with_output(mut self) -> io::Result<Output> {
        let s = self.wait()?;
        Ok(Output { status: s, stdout: w().children[self.id].out.clone(), stderr: vec![] })
    }
}

pub mod env {
    use super::*;
    pub use ::std::env::VarError;
    pub fn args() -> std::vec::IntoIter<String> {
        cur_proc().args.clone().into_iter()
    }
    pub fn args_os() -> std::vec::IntoIter<OsString> {
        cur_proc().args.iter().map(OsString::from).collect::<Vec<_>>().into_iter()
    }
    pub fn var_os<K: AsRef<OsStr>>(k: K) -> Option<OsString> {
        if !crate::world::active() || w().cur == usize::MAX {
            return ::std::env::var_os(k);
        }
        cur_proc().env.get(&*k.as_ref().to_string_lossy()).map(OsString::from)
    }
    pub fn var<K: AsRef<OsStr>>(k: K) -> Result<String, VarError> {
        match var_os(k) {
            Some(s) => s.into_string().map_err(VarError::NotUnicode),
            None => Err(VarError::NotPresent),
        }
    }
    pub fn vars() -> std::vec::IntoIter<(String, String)> {
        cur_proc().env.clone().into_iter().collect::<Vec<_>>().into_iter()
    }
    pub fn vars_os() -> std::vec::IntoIter<(OsString, OsString)> {
        cur_proc().env.iter().map(|(a, b)| (OsString::from(a), OsString::from(b))).collect::<Vec<_>>().into_iter()
    }
    pub unsafe fn set_var<K: AsRef<OsStr>, V: AsRef<OsStr>>(k: K, v: V) {
        cur_proc().env.insert(k.as_ref().to_string_lossy().into_owned(), v.as_ref().to_string_lossy().into_owned());
    }
    pub unsafe fn remove_var<K: AsRef<OsStr>>(k: K) {
        cur_proc().env.remove(&*k.as_ref().to_string_lossy());
    }
    pub fn current_exe() -> io::Result<PathBuf> {
        Ok(PathBuf::from("/usr/bin/pizauth"))
    }
    pub fn current_dir() -> io::Result<PathBuf> {
        Ok(PathBuf::from("/v"))
    }
    pub fn temp_dir() -> PathBuf {
        PathBuf::from(var_os("TMPDIR").unwrap_or_else(|| "/tmp".into()))
    }
}
