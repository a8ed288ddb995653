//! Exhaustive exploration by forking: every choice point forks one copy of the whole world per
//! alternative. Budgets bound the number of scheduling deviations.
use crate::world::{self, w};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

pub const STATE_BITS: usize = 24;
pub const OUT_BITS: usize = 18;

#[repr(C)]
pub struct Shared {
    pub free_slots: AtomicI64,
    pub execs: AtomicU64,
    pub steps: AtomicU64,
    pub choice_points: AtomicU64,
    pub forks: AtomicU64,
    pub pruned: AtomicU64,
    pub capped: AtomicU64,
    pub states: AtomicU64,
    pub outcomes: AtomicU64,
    pub violations: AtomicU64,
    pub abnormal: AtomicU64,
    pub extra: [AtomicU64; 4096],
    pub viol_sigs: [AtomicU64; 256],
    pub table_full: AtomicU64,
    pub outcome_tab: [AtomicU64; 1 << OUT_BITS],
    pub state_tab: [AtomicU64; 1 << STATE_BITS],
}

pub struct Explorer {
    pub sh: &'static Shared,
    pub devs_left: u32,
    pub budget: u32,
    pub prune: bool,
    pub choices: Vec<u32>,
    pub forced: Vec<u32>,
    pub replay: bool,
    pub deadline: u64,
    pub conc_children: Vec<i32>,
    pub err_path: String,
    pub scenario: String,
    pub sched_only_record: bool,
    pub last_key: (u64, u32),
}

static mut EXP: *mut Explorer = std::ptr::null_mut();
pub fn ex() -> &'static mut Explorer {
    unsafe { &mut *EXP }
}
pub fn set_explorer(e: Explorer) {
    unsafe { EXP = Box::into_raw(Box::new(e)) }
}

pub fn real_ns() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts as *mut _);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

pub fn new_shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}
pub fn free_shared(s: &'static Shared) {
    unsafe {
        libc::munmap(s as *const _ as *mut _, std::mem::size_of::<Shared>());
    }
}

/// Insert into an open-addressing set; true if it was not there. The set never forgets.
pub fn set_insert(tab: &[AtomicU64], k: u64) -> Option<bool> {
    let k = if k == 0 { 1 } else { k };
    let m = tab.len() - 1;
    let mut i = (k as usize) & m;
    for _ in 0..64 {
        let v = tab[i].load(SeqCst);
        if v == k {
            return Some(false);
        }
        if v == 0 {
            match tab[i].compare_exchange(0, k, SeqCst, SeqCst) {
                Ok(_) => return Some(true),
                Err(x) if x == k => return Some(false),
                Err(_) => (),
            }
        }
        i = (i + 1) & m;
    }
    None
}
fn set_contains(tab: &[AtomicU64], k: u64) -> bool {
    let k = if k == 0 { 1 } else { k };
    let m = tab.len() - 1;
    let mut i = (k as usize) & m;
    for _ in 0..64 {
        let v = tab[i].load(SeqCst);
        if v == k {
            return true;
        }
        if v == 0 {
            return false;
        }
        i = (i + 1) & m;
    }
    false
}

pub fn engine_error(msg: &str) -> ! {
    let e = ex();
    let s = format!("scenario {}: {}\nchoices {:?}\n", e.scenario, msg, e.choices);
    let _ = append(&e.err_path, &s);
    e.sh.abnormal.fetch_add(1, SeqCst);
    unsafe { libc::_exit(3) }
}
pub fn append(path: &str, s: &str) -> std::io::Result<()> {
    unsafe {
        let p = std::ffi::CString::new(path).unwrap();
        let fd = libc::syscall(
            libc::SYS_openat,
            libc::AT_FDCWD,
            p.as_ptr(),
            libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND | libc::O_CLOEXEC,
            0o644,
        ) as i32;
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        libc::write(fd, s.as_ptr() as *const _, s.len());
        libc::close(fd);
    }
    Ok(())
}

fn check_status(st: i32) {
    let ok = libc::WIFEXITED(st) && (libc::WEXITSTATUS(st) == 0 || libc::WEXITSTATUS(st) == 3);
    if !ok {
        let e = ex();
        let _ = append(&e.err_path, &format!("scenario {}: child ended abnormally: status {st:#x}\n", e.scenario));
        e.sh.abnormal.fetch_add(1, SeqCst);
    }
}
fn reap(block: bool) {
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(-1, &mut st, if block { 0 } else { libc::WNOHANG }) };
        if r <= 0 {
            break;
        }
        check_status(st);
    }
}

extern "C" {
    fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
}
/// Called (from a signal handler) when one execution has used 20 s of processor time.
pub fn arm_watchdog() {
    unsafe {
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: 20, tv_usec: 0 },
        };
        setitimer(1, &it, std::ptr::null_mut());
    }
}

fn over_deadline() -> bool {
    ex().deadline != 0 && real_ns() > ex().deadline
}

/// Fork a child for alternative `alt`; true in the child.
fn branch(alt: u32) -> bool {
    let e = ex();
    let sh = e.sh;
    reap(false);
    let conc = sh
        .free_slots
        .try_update(SeqCst, SeqCst, |x| if x > 0 { Some(x - 1) } else { None })
        .is_ok();
    sh.forks.fetch_add(1, SeqCst);
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        engine_error("fork failed");
    }
    if pid == 0 {
        arm_watchdog();
        e.conc_children.clear();
        OWN_SLOT.store(if conc { 1 } else { 0 }, SeqCst);
        BASE_STEPS.store(if world::active() { w().steps } else { 0 }, SeqCst);
        e.choices.push(alt);
        return true;
    }
    if conc {
        e.conc_children.push(pid);
    } else {
        let mut st = 0;
        unsafe {
            while libc::waitpid(pid, &mut st, 0) != pid {}
        }
        check_status(st);
    }
    false
}
static OWN_SLOT: AtomicU64 = AtomicU64::new(0);
static BASE_STEPS: AtomicU64 = AtomicU64::new(0);

/// End this process after its execution completed (or was pruned).
pub fn finish(pruned: bool) -> ! {
    let e = ex();
    if pruned {
        e.sh.pruned.fetch_add(1, SeqCst);
    } else {
        e.sh.execs.fetch_add(1, SeqCst);
    }
    if world::active() {
        e.sh.steps.fetch_add(w().steps - BASE_STEPS.load(SeqCst), SeqCst);
    }
    if OWN_SLOT.load(SeqCst) == 1 {
        e.sh.free_slots.fetch_add(1, SeqCst);
    }
    reap(true);
    unsafe { libc::_exit(0) }
}

/// Choose one of `n` alternatives; all are explored. Costs no deviation.
pub fn choose(n: usize, what: &'static str) -> usize {
    if world::active() {
        note_state();
    }
    let c = choose_raw(n, what);
    if world::active() && w().cur != usize::MAX {
        let t = &mut w().tasks[w().cur];
        t.h = world::mix(t.h, 1000 + c as u64);
    }
    c
}
fn choose_raw(n: usize, what: &'static str) -> usize {
    assert!(n > 0);
    if n == 1 {
        return 0;
    }
    let e = ex();
    if let Some(c) = forced(n, what) {
        return c;
    }
    e.sh.choice_points.fetch_add(1, SeqCst);
    if over_deadline() {
        e.sh.capped.fetch_add(1, SeqCst);
        e.choices.push(0);
        return 0;
    }
    for alt in 1..n {
        if branch(alt as u32) {
            return alt;
        }
    }
    e.choices.push(0);
    0
}
fn forced(n: usize, what: &'static str) -> Option<usize> {
    let e = ex();
    if !e.replay {
        return None;
    }
    let i = e.choices.len();
    let c = if i < e.forced.len() { e.forced[i] } else { 0 };
    if c as usize >= n {
        engine_error(&format!("replay diverged at choice {i} ({what}): {c} of {n}"));
    }
    e.choices.push(c);
    Some(c as usize)
}

/// A scheduling choice: alternative 0 is the default, each other one costs a deviation.
pub fn choose_sched(n: usize, what: &'static str) -> usize {
    let e = ex();
    if n <= 1 {
        return 0;
    }
    if e.devs_left == 0 {
        if e.prune && !e.replay && e.budget > 0 {
            prune_check();
        }
        return 0;
    }
    if let Some(c) = forced(n, what) {
        if c > 0 {
            e.devs_left -= 1;
        }
        return c;
    }
    e.sh.choice_points.fetch_add(1, SeqCst);
    if e.prune {
        prune_check();
    }
    if over_deadline() {
        e.sh.capped.fetch_add(1, SeqCst);
        e.choices.push(0);
        return 0;
    }
    for alt in 1..n {
        if branch(alt as u32) {
            ex().devs_left -= 1;
            return alt;
        }
    }
    e.choices.push(0);
    0
}

/// If this state was reached before with at least the same remaining budget, everything from here
/// on has been or is being explored by another process.
fn prune_check() {
    let e = ex();
    let k = world::state_key();
    if std::mem::replace(&mut e.last_key, (k, e.devs_left)) == (k, e.devs_left) {
        // Nothing has happened since this very process was here.
        return;
    }
    for b in e.devs_left + 1..=e.budget {
        if set_contains(&e.sh.state_tab, world::mix(k, 100 + b as u64)) {
            finish(true);
        }
    }
    match set_insert(&e.sh.state_tab, world::mix(k, 100 + e.devs_left as u64)) {
        Some(true) => {
            e.sh.states.fetch_add(1, SeqCst);
        }
        Some(false) => finish(true),
        None => {
            e.sh.table_full.fetch_add(1, SeqCst);
        }
    }
}

pub fn note_outcome(h: u64) -> bool {
    let e = ex();
    let new = set_insert(&e.sh.outcome_tab, h) == Some(true);
    if new {
        e.sh.outcomes.fetch_add(1, SeqCst);
    }
    new
}
/// Count the current state if it was not seen before.
pub fn note_state() {
    let e = ex();
    if !e.replay && set_insert(&e.sh.state_tab, world::mix(world::state_key(), 99)) == Some(true) {
        e.sh.states.fetch_add(1, SeqCst);
    }
}

/// This process was started holding a slot.
pub fn own_slot() {
    OWN_SLOT.store(1, SeqCst);
}
