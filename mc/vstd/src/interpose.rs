//! Link-time replacements for the libc functions through which the program would otherwise see the
//! real clock, entropy or file system. Outside a simulated world they do the real thing.
use crate::world::{active, cur_pid, point, rng_fill, sys, touch, w, SysEv};
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, size_t, ssize_t};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::io;

#[derive(Clone, Debug)]
pub enum Kind {
    Dir,
    File(Vec<u8>),
    Socket(usize),
}
#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    pub mode: u32,
    /// Owned by somebody else: chmod fails.
    pub foreign: bool,
    pub unreadable: bool,
}
pub struct Fs {
    pub nodes: BTreeMap<String, Node>,
    pub h: u64,
    /// Fail the next call to the named operation with this errno (0: let it pass).
    pub faults: Vec<(&'static str, i32)>,
    /// Open files: process, path, and whether it is locked (2: exclusively).
    pub fds: BTreeMap<c_int, (usize, String, u8)>,
}
impl Fs {
    pub fn new() -> Fs {
        let mut n = BTreeMap::new();
        n.insert("/v".to_string(), Node { kind: Kind::Dir, mode: 0o755, foreign: true, unreadable: false });
        n.insert("/tmp".to_string(), Node { kind: Kind::Dir, mode: 0o1777, foreign: true, unreadable: false });
        Fs { nodes: n, h: 0, faults: vec![], fds: BTreeMap::new() }
    }
}
fn virt() -> bool {
    active() && w().cur != usize::MAX
}
pub fn fs_touch() {
    let mut h = w().fs.h;
    touch(&mut h, 1);
    w().fs.h = h;
}
fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => (),
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    format!("/{}", out.join("/"))
}
fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].to_string(),
    }
}
unsafe fn vpath(p: *const c_char) -> Option<String> {
    if !virt() || p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_str().ok()?;
    if s.starts_with("/v/") || s == "/v" || s.starts_with("/tmp/runtime-") || s == "/tmp" {
        Some(norm(s))
    } else {
        None
    }
}
fn errno(e: i32) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}
fn fault(op: &'static str) -> Option<i32> {
    let i = w().fs.faults.iter().position(|x| x.0 == op)?;
    Some(w().fs.faults.remove(i).1).filter(|e| *e != 0)
}
fn check_parent(p: &str) -> Result<(), i32> {
    match w().fs.nodes.get(&parent(p)) {
        Some(Node { kind: Kind::Dir, .. }) => Ok(()),
        Some(_) => Err(libc::ENOTDIR),
        None => Err(libc::ENOENT),
    }
}

pub fn socket_at(p: &str) -> io::Result<usize> {
    match w().fs.nodes.get(&norm(p)) {
        Some(Node { kind: Kind::Socket(l), .. }) => Ok(*l),
        Some(_) => Err(io::Error::from_raw_os_error(libc::ECONNREFUSED)),
        None => Err(io::Error::from_raw_os_error(libc::ENOENT)),
    }
}
pub fn bind_socket(p: &str, l: usize) -> io::Result<()> {
    let p = norm(p);
    if let Some(e) = fault("bind") {
        return Err(io::Error::from_raw_os_error(e));
    }
    if w().fs.nodes.contains_key(&p) {
        return Err(io::Error::from_raw_os_error(libc::EADDRINUSE));
    }
    check_parent(&p).map_err(io::Error::from_raw_os_error)?;
    let um = w().procs[cur_pid()].umask;
    let mut modes = vec![];
    let mut d = parent(&p);
    while d != "/" {
        if let Some(n) = w().fs.nodes.get(&d) {
            modes.push((d.clone(), n.mode, n.foreign));
        }
        d = parent(&d);
    }
    w().fs.nodes.insert(p.clone(), Node { kind: Kind::Socket(l), mode: 0o777 & !um, foreign: false, unreadable: false });
    sys(SysEv::Bind { pid: cur_pid(), path: &p, modes, umask: um });
    Ok(())
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if !active() {
        return libc::syscall(libc::SYS_clock_gettime, id as c_long, ts) as c_int;
    }
    let ns = match id {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => crate::world::real_now(),
        libc::CLOCK_BOOTTIME | libc::CLOCK_BOOTTIME_ALARM => crate::world::boot_now(),
        _ => w().mono,
    };
    (*ts).tv_sec = (ns / 1_000_000_000) as i64;
    (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if !active() {
        return libc::syscall(libc::SYS_getrandom, buf, n, flags) as ssize_t;
    }
    rng_fill(std::slice::from_raw_parts_mut(buf as *mut u8, n));
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn raise(sig: c_int) -> c_int {
    if virt() {
        point("raise");
        crate::world::exit_proc(cur_pid(), 128 + sig);
        return 0;
    }
    libc::syscall(libc::SYS_tgkill, libc::getpid(), libc::syscall(libc::SYS_gettid), sig) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn umask(m: mode_t) -> mode_t {
    if virt() {
        let p = crate::world::cur_proc();
        let o = p.umask;
        p.umask = m & 0o777;
        return o;
    }
    libc::syscall(libc::SYS_umask, m) as mode_t
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    _: *mut libc::pthread_t,
    _: *const libc::pthread_attr_t,
    _: extern "C" fn(*mut c_void) -> *mut c_void,
    _: *mut c_void,
) -> c_int {
    if active() {
        crate::world::die("a real thread was created inside the simulated world");
    }
    libc::EAGAIN
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    match vpath(p) {
        Some(p) => {
            point("mkdir");
            fs_touch();
            if let Some(e) = fault("mkdir") {
                return errno(e);
            }
            if w().fs.nodes.contains_key(&p) {
                return errno(libc::EEXIST);
            }
            if let Err(e) = check_parent(&p) {
                return errno(e);
            }
            let um = w().procs[cur_pid()].umask;
            w().fs.nodes.insert(p, Node { kind: Kind::Dir, mode: mode & 0o7777 & !um, foreign: false, unreadable: false });
            0
        }
        None => libc::syscall(libc::SYS_mkdir, p, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    match vpath(p) {
        Some(p) => {
            point("chmod");
            fs_touch();
            if let Some(e) = fault("chmod") {
                return errno(e);
            }
            match w().fs.nodes.get_mut(&p) {
                Some(n) if n.foreign => errno(libc::EPERM),
                Some(n) => {
                    n.mode = mode & 0o7777;
                    0
                }
                None => errno(libc::ENOENT),
            }
        }
        None => libc::syscall(libc::SYS_chmod, p, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match vpath(p) {
        Some(p) => {
            point("unlink");
            fs_touch();
            if let Some(e) = fault("unlink") {
                return errno(e);
            }
            match w().fs.nodes.get(&p).map(|x| x.kind.clone()) {
                Some(Kind::Dir) => errno(libc::EISDIR),
                Some(k) => {
                    let live = matches!(k, Kind::Socket(l) if w().net.listeners[l].live && w().net.listeners[l].pid != cur_pid());
                    w().fs.nodes.remove(&p);
                    sys(SysEv::Unlink { pid: cur_pid(), path: &p, live_socket: live });
                    0
                }
                None => errno(libc::ENOENT),
            }
        }
        None => libc::syscall(libc::SYS_unlink, p) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (vpath(a), vpath(b)) {
        (Some(a), Some(b)) => {
            point("rename");
            fs_touch();
            match w().fs.nodes.remove(&a) {
                Some(n) => {
                    w().fs.nodes.insert(b, n);
                    0
                }
                None => errno(libc::ENOENT),
            }
        }
        _ => libc::syscall(libc::SYS_rename, a, b) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(fd: c_int, p: *const c_char, t: *const libc::timespec, fl: c_int) -> c_int {
    match vpath(p) {
        Some(p) => {
            point("utimensat");
            fs_touch();
            if let Some(e) = fault("utimensat") {
                return errno(e);
            }
            if w().fs.nodes.contains_key(&p) {
                sys(SysEv::Utime { pid: cur_pid(), path: &p });
                0
            } else {
                errno(libc::ENOENT)
            }
        }
        None => libc::syscall(libc::SYS_utimensat, fd, p, t, fl) as c_int,
    }
}
unsafe fn memfd(p: &str, d: &[u8]) -> c_int {
    let fd = libc::syscall(libc::SYS_memfd_create, c"v".as_ptr(), libc::MFD_CLOEXEC) as c_int;
    if fd >= 0 {
        libc::write(fd, d.as_ptr() as *const c_void, d.len());
        libc::lseek(fd, 0, libc::SEEK_SET);
        w().fs.fds.insert(fd, (cur_pid(), p.to_string(), 0));
    }
    fd
}
/// Locks end with the process.
pub fn close_all(pid: usize) {
    let v: Vec<c_int> = w().fs.fds.iter().filter(|x| x.1 .0 == pid).map(|x| *x.0).collect();
    for fd in v {
        let l = w().fs.fds.remove(&fd).unwrap();
        if l.2 > 0 {
            fs_touch();
            crate::world::wake(crate::world::key(crate::world::K_LOCK, 0));
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() {
        if let Some(l) = w().fs.fds.remove(&fd) {
            if l.2 > 0 {
                fs_touch();
                crate::world::wake(crate::world::key(crate::world::K_LOCK, 0));
            }
        }
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !virt() || !w().fs.fds.contains_key(&fd) {
        return libc::syscall(libc::SYS_flock, fd, op) as c_int;
    }
    point("flock");
    fs_touch();
    // Unlocking does not fail.
    if op & libc::LOCK_UN == 0 {
        if let Some(e) = fault("flock") {
            return errno(e);
        }
    }
    let want: u8 = match op & !libc::LOCK_NB {
        libc::LOCK_UN => 0,
        libc::LOCK_SH => 1,
        _ => 2,
    };
    loop {
        let path = w().fs.fds[&fd].1.clone();
        let clash = w().fs.fds.iter().any(|(f, l)| *f != fd && l.1 == path && l.2 > 0 && (want == 2 || l.2 == 2));
        if want == 0 || !clash {
            w().fs.fds.get_mut(&fd).unwrap().2 = want;
            crate::world::wake(crate::world::key(crate::world::K_LOCK, 0));
            return 0;
        }
        if op & libc::LOCK_NB != 0 {
            return errno(libc::EWOULDBLOCK);
        }
        crate::world::block(crate::world::key(crate::world::K_LOCK, 0), None, "flock");
        fs_touch();
    }
}
#[no_mangle]
pub unsafe extern "C" fn daemon(_nochdir: c_int, noclose: c_int) -> c_int {
    if !virt() {
        return errno(libc::ENOSYS);
    }
    point("daemon");
    if let Some(e) = fault("daemon") {
        return errno(e);
    }
    crate::world::daemonise(noclose == 0);
    0
}
unsafe fn vopen(p: String, flags: c_int, mode: mode_t) -> c_int {
    point("open");
    fs_touch();
    if let Some(e) = fault("open") {
        return errno(e);
    }
    let write = flags & (libc::O_WRONLY | libc::O_RDWR) != 0;
    if flags & libc::O_CREAT != 0 {
        if w().fs.nodes.contains_key(&p) {
            if flags & libc::O_EXCL != 0 {
                return errno(libc::EEXIST);
            }
        } else {
            if let Err(e) = check_parent(&p) {
                return errno(e);
            }
            let um = w().procs[cur_pid()].umask;
            w().fs.nodes.insert(p.clone(), Node { kind: Kind::File(vec![]), mode: mode & 0o7777 & !um, foreign: false, unreadable: false });
        }
    }
    match w().fs.nodes.get(&p) {
        Some(n) if n.unreadable => errno(libc::EACCES),
        Some(Node { kind: Kind::File(d), .. }) => {
            let d = d.clone();
            memfd(&p, &d)
        }
        Some(Node { kind: Kind::Dir, .. }) if write => errno(libc::EISDIR),
        Some(Node { kind: Kind::Dir, .. }) => {
            let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, c"/".as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC) as c_int;
            if fd >= 0 {
                w().fs.fds.insert(fd, (cur_pid(), p.clone(), 0));
            }
            fd
        }
        Some(_) => errno(libc::ENXIO),
        None => errno(libc::ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match vpath(p) {
        Some(p) => vopen(p, flags, mode),
        None => libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(p, flags, mode)
}
fn ftype(n: &Node) -> u32 {
    match n.kind {
        Kind::Dir => libc::S_IFDIR,
        Kind::File(_) => libc::S_IFREG,
        Kind::Socket(_) => libc::S_IFSOCK,
    }
}
fn size(n: &Node) -> u64 {
    match &n.kind {
        Kind::File(d) => d.len() as u64,
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, fl: c_int, mask: c_uint, b: *mut libc::statx) -> c_int {
    match vpath(p) {
        Some(p) => {
            point("stat");
            fs_touch();
            match w().fs.nodes.get(&p) {
                Some(n) => {
                    std::ptr::write_bytes(b, 0, 1);
                    (*b).stx_mask = libc::STATX_BASIC_STATS;
                    (*b).stx_mode = (ftype(n) | n.mode) as u16;
                    (*b).stx_size = size(n);
                    (*b).stx_nlink = 1;
                    (*b).stx_uid = if n.foreign { 0 } else { 1000 };
                    0
                }
                None => errno(libc::ENOENT),
            }
        }
        None => libc::syscall(libc::SYS_statx, fd, p, fl, mask, b) as c_int,
    }
}
unsafe fn vstat(p: String, b: *mut libc::stat64) -> c_int {
    point("stat");
    fs_touch();
    match w().fs.nodes.get(&p) {
        Some(n) => {
            std::ptr::write_bytes(b, 0, 1);
            (*b).st_mode = ftype(n) | n.mode;
            (*b).st_size = size(n) as i64;
            (*b).st_nlink = 1;
            0
        }
        None => errno(libc::ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    match vpath(p) {
        Some(p) => vstat(p, b),
        None => libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, p, b, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    match vpath(p) {
        Some(p) => vstat(p, b),
        None => libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, p, b, libc::AT_SYMLINK_NOFOLLOW) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    match vpath(p) {
        Some(p) => {
            point("stat");
            fs_touch();
            if w().fs.nodes.contains_key(&p) {
                0
            } else {
                errno(libc::ENOENT)
            }
        }
        None => libc::syscall(libc::SYS_access, p, m) as c_int,
    }
}
