//! The simulated world: virtual processes, tasks (threads), clocks and the scheduler. Everything
//! runs on one OS thread; tasks are coroutines. All state is reached through [w].
use crate::explore;
use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Key = u64;
pub const STACK: usize = 1 << 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Runnable,
    Blocked { key: Key, deadline: Option<u64> },
    Stalled,
    Done,
    Killed,
}

pub struct Task {
    pub id: usize,
    pub pid: usize,
    pub name: String,
    pub st: St,
    coro: Option<Coroutine<(), (), (), DefaultStack>>,
    yielder: *const Yielder<(), ()>,
    pub timed_out: bool,
    pub h: u64,
    stall: u8,
    pub park_token: bool,
    pub what: &'static str,
    /// The owner (a task, plus one) of the mutex it waits for.
    pub wants: *const std::cell::Cell<usize>,
}

pub struct Proc {
    pub pid: usize,
    pub server: bool,
    pub args: Vec<String>,
    pub env: BTreeMap<String, String>,
    pub stdin: Vec<u8>,
    pub stdin_pos: usize,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// So many bytes can still be written to standard output.
    pub out_room: Option<usize>,
    pub out_buf: Option<::std::io::LineWriter<crate::stdio::Full>>,
    pub logs: Vec<(log::Level, String)>,
    pub log_module: Option<String>,
    pub log_verbosity: usize,
    pub exit: Option<i32>,
    pub h: u64,
    pub umask: u32,
    /// Has gone into the background; its standard streams lead nowhere.
    pub daemon: bool,
    pub null_io: bool,
    pub logger: bool,
    pub log_max: log::LevelFilter,
}

/// A notification from the world to the environment.
#[derive(Debug)]
pub enum SysEv<'a> {
    ProcStart { pid: usize },
    ProcExit { pid: usize, code: i32 },
    Panic { pid: usize, task: &'a str, msg: &'a str },
    Log { pid: usize, level: log::Level, msg: &'a str },
    Deadlock { blocked: &'a [String] },
    StepLimit,
    Bind { pid: usize, path: &'a str, modes: Vec<(String, u32, bool)>, umask: u32 },
    ChildEnd { id: usize, code: i32, killed: bool },
    Unlink { pid: usize, path: &'a str, live_socket: bool },
    /// A file's time stamps are updated.
    Utime { pid: usize, path: &'a str },
    /// The process continues in the background: the shell sees it end with status 0.
    Daemon { pid: usize },
    ConnClosed { conn: usize },
    ConnFail { conn: usize },
    /// Every thread of the program is waiting for something outside it.
    Quiet,
    /// Time is about to pass.
    Advance,
}
pub enum ConnectRes {
    Ok,
    Err(std::io::ErrorKind),
    /// Never answers: fails when the timeout (or an OS timeout of two minutes) passes.
    Hang,
}
pub enum SpawnRes {
    Exit(i32),
    Hold,
    Fail(i32),
}
pub struct SpawnReq {
    pub id: usize,
    pub pid: usize,
    pub prog: String,
    pub args: Vec<String>,
    pub env: BTreeMap<String, String>,
}
pub trait Env {
    fn sys(&mut self, ev: SysEv);
    fn dns(&mut self, name: &str) -> std::io::Result<Vec<std::net::IpAddr>>;
    fn connect(&mut self, addr: std::net::SocketAddr, conn: usize) -> ConnectRes;
    /// The program wrote to a connection whose other end is the environment.
    fn data(&mut self, conn: usize);
    fn spawn(&mut self, req: SpawnReq) -> SpawnRes;
    fn as_any(&mut self) -> &mut dyn Any;
}

pub struct World {
    pub tasks: Vec<Task>,
    pub procs: Vec<Proc>,
    pub cur: usize,
    pub runq: VecDeque<usize>,
    /// Nanoseconds of CLOCK_MONOTONIC, suspended time, and wall clock at CLOCK_MONOTONIC 0.
    pub mono: u64,
    pub susp: u64,
    pub real_base: u64,
    pub steps: u64,
    pub step_limit: u64,
    pub run_len: u32,
    pub env: Option<Box<dyn Env>>,
    pub driver: usize,
    pub devs_on: bool,
    pub stalls: u8,
    pub spurious: bool,
    pub ended: bool,
    pub h_trace: u64,
    pub h_rng: u64,
    pub h_env: u64,
    pub rng_ctr: u64,
    pub rng_seed: u64,
    /// Random values consist of these bytes, but for a few at one end.
    pub rare: Option<([u8; 3], bool)>,
    pub net: crate::vnet::Net,
    pub children: Vec<crate::vproc::ChildSt>,
    pub fs: crate::interpose::Fs,
    pub entry: fn(),
    pub quiet_waiters: Vec<usize>,
    pub stacks: Vec<DefaultStack>,
    pub quiesced: u64,
    pub panic_msg: String,
    pub idle_hook: bool,
    /// This process may be killed at any of its operations.
    pub crash: Option<usize>,
}

static mut WORLD: *mut World = std::ptr::null_mut();
static mut IN_KERNEL: bool = false;

#[inline]
pub fn active() -> bool {
    unsafe { !WORLD.is_null() }
}
#[inline]
pub fn w() -> &'static mut World {
    unsafe {
        debug_assert!(!WORLD.is_null());
        &mut *WORLD
    }
}
pub fn set_world(x: Option<Box<World>>) {
    unsafe {
        WORLD = match x {
            Some(b) => Box::into_raw(b),
            None => std::ptr::null_mut(),
        }
    }
}

impl World {
    pub fn new(entry: fn(), env: Box<dyn Env>, rng_seed: u64) -> World {
        World {
            tasks: vec![],
            procs: vec![],
            cur: usize::MAX,
            runq: VecDeque::new(),
            mono: 1_000_000 * 1_000_000_000,
            susp: 5_000 * 1_000_000_000,
            real_base: 1_700_000_000 * 1_000_000_000,
            steps: 0,
            step_limit: 2_000_000,
            run_len: 0,
            env: Some(env),
            driver: usize::MAX,
            devs_on: false,
            stalls: 0,
            spurious: false,
            ended: false,
            h_trace: 0,
            h_rng: 0,
            h_env: 0,
            rng_ctr: 0,
            rng_seed,
            rare: None,
            net: crate::vnet::Net::new(),
            children: vec![],
            fs: crate::interpose::Fs::new(),
            entry,
            quiet_waiters: vec![],
            stacks: vec![],
            quiesced: 0,
            panic_msg: String::new(),
            idle_hook: false,
            crash: None,
        }
    }
}

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23) ^ 0x5851_F42D_4C95_7F2D;
    x ^= x >> 30;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    mix(h, b.len() as u64)
}

/// Record that the current task performed an operation on an object with history hash `o`.
#[inline]
pub fn touch(o: &mut u64, kind: u64) {
    if w().cur == usize::MAX {
        *o = mix(*o, kind);
        return;
    }
    let t = &mut w().tasks[w().cur];
    t.h = mix(mix(t.h, kind), *o);
    *o = t.h;
}
/// The observable trace is an object too, so that merging states never merges different traces.
pub fn touch_trace(x: u64) {
    if w().cur != usize::MAX {
        let th = w().tasks[w().cur].h;
        w().h_trace = mix(mix(w().h_trace, x), th);
    } else {
        w().h_trace = mix(w().h_trace, x);
    }
}

pub fn with_env<R>(f: impl FnOnce(&mut dyn Env) -> R) -> R {
    let mut e = w().env.take().expect("environment re-entered");
    let r = f(&mut *e);
    w().env = Some(e);
    r
}
pub fn sys(ev: SysEv) {
    with_env(|e| e.sys(ev));
}

pub fn die(msg: &str) -> ! {
    explore::engine_error(msg)
}

pub fn new_proc(server: bool, args: Vec<String>, env: BTreeMap<String, String>, stdin: Vec<u8>) -> usize {
    let pid = w().procs.len();
    w().procs.push(Proc {
        pid,
        server,
        args,
        env,
        stdin,
        stdin_pos: 0,
        stdout: vec![],
        stderr: vec![],
        out_room: None,
        out_buf: None,
        logs: vec![],
        log_module: None,
        log_verbosity: 0,
        exit: None,
        h: 0,
        umask: 0o022,
        daemon: false,
        null_io: false,
        logger: false,
        log_max: log::LevelFilter::Trace,
    });
    pid
}

/// Start a virtual process running the program under test.
pub fn spawn_proc(server: bool, args: &[&str], env: BTreeMap<String, String>, stdin: Vec<u8>) -> usize {
    let pid = new_proc(server, args.iter().map(|x| x.to_string()).collect(), env, stdin);
    start_proc(pid);
    pid
}
pub fn start_proc(pid: usize) {
    sys(SysEv::ProcStart { pid });
    let name = format!("{}:main", w().procs[pid].args.get(1).map_or("", |x| x.as_str()));
    let entry = w().entry;
    spawn_task(
        pid,
        name,
        Box::new(move || {
            entry();
            exit_proc(w().tasks[w().cur].pid, 0);
        }),
        true,
    );
}

pub fn cur_pid() -> usize {
    w().tasks[w().cur].pid
}
pub fn cur_proc() -> &'static mut Proc {
    &mut w().procs[cur_pid()]
}

pub fn spawn_task(pid: usize, name: String, f: Box<dyn FnOnce()>, main: bool) -> usize {
    let id = w().tasks.len();
    let stack = w().stacks.pop().unwrap_or_else(|| DefaultStack::new(STACK).expect("stack"));
    let coro = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        w().tasks[id].yielder = y as *const _;
        let r = catch_unwind(AssertUnwindSafe(f));
        if r.is_err() {
            let msg = std::mem::take(&mut w().panic_msg);
            let name = w().tasks[id].name.clone();
            sys(SysEv::Panic { pid, task: &name, msg: &msg });
            touch_trace(hash_bytes(msg.as_bytes()));
            if main {
                exit_proc(pid, 101);
            }
        } else if main {
            exit_proc(pid, 0);
        }
    });
    let ph = if w().cur == usize::MAX { 0 } else { w().tasks[w().cur].h };
    w().tasks.push(Task {
        id,
        pid,
        name,
        st: St::Runnable,
        coro: Some(coro),
        yielder: std::ptr::null(),
        timed_out: false,
        h: mix(ph, 77 + id as u64),
        stall: 0,
        park_token: false,
        what: "start",
        wants: std::ptr::null(),
    });
    w().runq.push_back(id);
    id
}

/// Terminate virtual process `pid`: its tasks never run again and its sockets are closed. If the
/// current task belongs to `pid` this does not return.
pub fn exit_proc(pid: usize, code: i32) {
    if w().procs[pid].exit.is_none() {
        w().procs[pid].exit = Some(code);
        w().procs[pid].out_buf = None;
        for t in 0..w().tasks.len() {
            let tk = &mut w().tasks[t];
            if tk.pid == pid && tk.st != St::Done {
                tk.st = St::Killed;
            }
        }
        w().runq.retain(|t| w().tasks[*t].st != St::Killed);
        if w().procs[pid].server {
            sys(SysEv::ProcExit { pid, code });
        }
        crate::vnet::close_all(pid);
        crate::interpose::close_all(pid);
        if !w().procs[pid].server {
            sys(SysEv::ProcExit { pid, code });
        }
        let h = mix(hash_bytes(&w().procs[pid].stdout), mix(hash_bytes(&w().procs[pid].stderr), code as u64));
        touch_trace(h);
        wake(key(K_PROC, pid));
    }
    if w().cur != usize::MAX && cur_pid() == pid {
        suspend();
        unreachable!();
    }
}

/// The current process goes on in the background, with the current task only.
pub fn daemonise(null_io: bool) {
    let (me, pid) = (w().cur, cur_pid());
    for t in 0..w().tasks.len() {
        let tk = &mut w().tasks[t];
        if tk.pid == pid && t != me && tk.st != St::Done {
            tk.st = St::Killed;
        }
    }
    w().runq.retain(|t| w().tasks[*t].st != St::Killed);
    let p = cur_proc();
    p.daemon = true;
    p.null_io |= null_io;
    touch_trace(0xDAE);
    sys(SysEv::Daemon { pid });
    wake(key(K_PROC, pid));
}

pub const K_PROC: u64 = 1;
pub const K_END: u64 = 2;
pub const K_LISTEN: u64 = 3;
pub const K_CHILD: u64 = 4;
pub const K_TASK: u64 = 5;
pub const K_SLEEP: u64 = 6;
pub const K_USER: u64 = 7;
pub const K_QUIET: u64 = 8;
pub const K_LOCK: u64 = 9;
pub fn key(kind: u64, id: usize) -> Key {
    (kind << 56) | id as u64
}

fn suspend() {
    let y = w().tasks[w().cur].yielder;
    unsafe { (*y).suspend(()) };
}

/// Block the current task until [wake] or the deadline (in monotonic ns). Returns true if the
/// deadline passed.
pub fn block(key: Key, deadline: Option<u64>, what: &'static str) -> bool {
    if std::thread::panicking() {
        die("a task blocked while unwinding");
    }
    let t = &mut w().tasks[w().cur];
    t.st = St::Blocked { key, deadline };
    t.timed_out = false;
    t.what = what;
    w().run_len = 0;
    suspend();
    let t = &mut w().tasks[w().cur];
    if t.timed_out {
        t.h = mix(t.h, 0x71ED);
    }
    t.timed_out
}

pub fn make_runnable(t: usize) {
    w().tasks[t].st = St::Runnable;
    w().runq.push_back(t);
}
pub fn wake(k: Key) -> usize {
    let mut n = 0;
    for t in 0..w().tasks.len() {
        if let St::Blocked { key, .. } = w().tasks[t].st {
            if key == k {
                make_runnable(t);
                n += 1;
            }
        }
    }
    n
}
/// The task blocked longest on `k`. (Task order is creation order; blocked order is kept by the
/// caller where it matters.)
pub fn waiters(k: Key) -> Vec<usize> {
    w().tasks.iter().filter(|t| matches!(t.st, St::Blocked { key, .. } if key == k)).map(|t| t.id).collect()
}

/// The current task must wait for a mutex with this owner: can it ever get it?
pub fn waits_for(owner: &std::cell::Cell<usize>) {
    if w().cur == usize::MAX {
        return;
    }
    w().tasks[w().cur].wants = owner;
    let mut t = w().cur;
    let mut way = vec![];
    loop {
        way.push(format!("{}/{}", w().tasks[t].pid, w().tasks[t].name));
        let p = w().tasks[t].wants;
        if p.is_null() {
            if w().tasks[t].st != St::Done {
                return;
            }
            break;
        }
        let o = unsafe { (*p).get() };
        if o == 0 {
            return;
        }
        t = o - 1;
        if t == w().cur {
            break;
        }
        if way.len() > w().tasks.len() {
            // Others wait for each other: that has been reported.
            return;
        }
    }
    sys(SysEv::Deadlock { blocked: &[format!("mutex: {} for ever", way.join(" waits for "))] });
}
pub fn waits_no_more() {
    if w().cur != usize::MAX {
        w().tasks[w().cur].wants = std::ptr::null();
    }
}

fn is_server(t: usize) -> bool {
    w().procs[w().tasks[t].pid].server
}

/// A scheduling point: called immediately before every operation other tasks can observe.
#[inline(never)]
pub fn point(what: &'static str) {
    if !active() || w().cur == usize::MAX || std::thread::panicking() {
        return;
    }
    let ww = w();
    ww.steps += 1;
    ww.run_len += 1;
    if ww.steps > ww.step_limit {
        step_limit();
    }
    ww.tasks[ww.cur].what = what;
    if ww.crash == Some(ww.tasks[ww.cur].pid) && explore::choose(2, "crash") == 1 {
        ww.crash = None;
        exit_proc(cur_pid(), 137);
    }
    if ww.run_len > 5000 {
        // A task that never blocks must not starve the others.
        ww.run_len = 0;
        let c = ww.cur;
        ww.runq.push_back(c);
        suspend();
        return;
    }
    if !ww.devs_on || ww.cur == ww.driver || !is_server(ww.cur) {
        return;
    }
    let others = ww.runq.len();
    let stalls = ww.stalls as usize;
    let n = 1 + others + stalls;
    let me = ww.cur;
    if n == 1 {
        ww.tasks[me].h = mix(ww.tasks[me].h, 0x9017);
        return;
    }
    let c = explore::choose_sched(n, what);
    // The task is past this point, whatever it does next.
    w().tasks[me].h = mix(w().tasks[me].h, 0x9017);
    if c == 0 {
        return;
    }
    w().run_len = 0;
    if c <= others {
        let t = w().runq.remove(c - 1).unwrap();
        w().runq.push_front(t);
        w().runq.push_back(me);
    } else {
        w().tasks[me].st = St::Stalled;
        w().tasks[me].stall = (c - others) as u8;
    }
    suspend();
}

fn step_limit() -> ! {
    sys(SysEv::StepLimit);
    w().ended = true;
    suspend();
    unreachable!()
}

/// Let every other task run until nothing can run without time passing.
pub fn wait_quiet() {
    assert_eq!(w().cur, w().driver);
    w().quiet_waiters.push(w().cur);
    block(key(K_QUIET, 0), None, "driver:quiet");
}

fn quiet_event() {
    if !w().tasks.iter().any(|t| t.st == St::Stalled) {
        sys(SysEv::Quiet);
    }
}
fn release_stalled(max: u8) -> bool {
    let mut any = false;
    for t in 0..w().tasks.len() {
        if w().tasks[t].st == St::Stalled && w().tasks[t].stall <= max {
            w().tasks[t].stall = 0;
            make_runnable(t);
            any = true;
        }
    }
    any
}

/// Nothing is runnable.
fn idle() {
    if release_stalled(1) {
        return;
    }
    if let Some(t) = w().quiet_waiters.pop() {
        if w().tasks[t].st != St::Killed {
            // Tasks stalled at level 2 sit out exactly one operation of the driver.
            w().quiesced += 1;
            explore::note_state();
            for x in 0..w().tasks.len() {
                if w().tasks[x].st == St::Stalled && w().tasks[x].stall > 1 {
                    w().tasks[x].stall -= 1;
                }
            }
            quiet_event();
            make_runnable(t);
        }
        return;
    }
    if release_stalled(255) {
        return;
    }
    let mut best: Option<u64> = None;
    for t in &w().tasks {
        if let St::Blocked { deadline: Some(d), .. } = t.st {
            if best.map_or(true, |b| d < b) {
                best = Some(d);
            }
        }
    }
    match best {
        Some(d) => {
            quiet_event();
            sys(SysEv::Advance);
            if d >= w().mono {
                w().mono = d + 1000;
            }
            fire_timers();
        }
        None => {
            let b: Vec<String> = w()
                .tasks
                .iter()
                .filter(|t| matches!(t.st, St::Blocked { .. }))
                .map(|t| format!("{}/{}@{}", t.pid, t.name, t.what))
                .collect();
            sys(SysEv::Deadlock { blocked: &b });
            w().ended = true;
        }
    }
}
pub fn fire_timers() {
    let now = w().mono;
    let mut due: Vec<(u64, usize)> = vec![];
    for t in &w().tasks {
        if let St::Blocked { deadline: Some(d), .. } = t.st {
            if d < now {
                due.push((d, t.id));
            }
        }
    }
    due.sort();
    for (_, t) in due {
        w().tasks[t].timed_out = true;
        make_runnable(t);
    }
}
/// The next time at which a task other than the driver wakes up by itself.
pub fn next_deadline() -> Option<u64> {
    w().tasks.iter().filter_map(|t| if let St::Blocked { deadline: Some(d), .. } = t.st { Some(d) } else { None }).min()
}

/// State hash used to merge executions that differ only in the order of independent steps.
pub fn state_key() -> u64 {
    let ww = w();
    let mut h = mix(ww.mono, ww.susp);
    for t in &ww.tasks {
        let s = match t.st {
            St::Runnable => 1,
            St::Blocked { deadline, .. } => mix(2, deadline.unwrap_or(0)),
            St::Stalled => 3 + t.stall as u64,
            St::Done => 20,
            St::Killed => 21,
        };
        h = h.wrapping_add(mix(t.h, mix(t.id as u64, s)));
    }
    for t in &ww.runq {
        h = mix(h, *t as u64);
    }
    h = mix(h, ww.h_trace);
    h = mix(h, ww.h_rng);
    h = mix(h, ww.h_env);
    mix(h, ww.cur as u64)
}

/// Run until the driver has finished (or the execution was ended).
pub fn run() {
    loop {
        if w().ended {
            break;
        }
        if w().driver != usize::MAX && matches!(w().tasks[w().driver].st, St::Done | St::Killed) {
            break;
        }
        if w().runq.is_empty() {
            w().cur = usize::MAX;
            idle();
            continue;
        }
        let n = w().runq.len();
        let mut c = 0;
        if n > 1 && w().devs_on && w().runq.iter().any(|t| is_server(*t)) {
            w().cur = usize::MAX;
            c = explore::choose_sched(n, "switch");
        }
        let t = w().runq.remove(c).unwrap();
        w().cur = t;
        let mut coro = w().tasks[t].coro.take().unwrap();
        let r = coro.resume(());
        match r {
            CoroutineResult::Return(()) => {
                if w().tasks[t].st != St::Killed {
                    w().tasks[t].st = St::Done;
                }
                w().stacks.push(coro.into_stack());
                wake(key(K_TASK, t));
            }
            CoroutineResult::Yield(()) => {
                if w().tasks[t].st == St::Killed {
                    std::mem::forget(coro);
                } else {
                    w().tasks[t].coro = Some(coro);
                }
            }
        }
        w().cur = usize::MAX;
    }
}

pub fn boot_now() -> u64 {
    w().mono + w().susp
}
pub fn real_now() -> u64 {
    w().real_base + w().mono + w().susp
}
pub fn set_rare(pat: [u8; 3], front: bool) {
    w().rare = Some((pat, front));
    let mut h = w().h_rng;
    touch(&mut h, (u32::from_le_bytes([pat[0], pat[1], pat[2], 1]) as u64) * 2 + front as u64);
    w().h_rng = h;
}
/// To be called after a change of `rng_seed`.
pub fn set_seed() {
    let mut h = w().h_rng;
    touch(&mut h, w().rng_seed);
    w().h_rng = h;
}
pub fn rng_fill(buf: &mut [u8]) {
    let mut h = w().h_rng;
    touch(&mut h, 0x4E6);
    w().h_rng = h;
    for c in buf.chunks_mut(8) {
        w().rng_ctr += 1;
        let x = mix(mix(w().rng_seed, 0xA5A5), w().rng_ctr).to_le_bytes();
        c.copy_from_slice(&x[..c.len()]);
    }
}

/// The monotonic time `d` from now; `None` if it cannot be represented (wait forever).
pub fn deadline(d: std::time::Duration) -> Option<u64> {
    u64::try_from(d.as_nanos()).ok().and_then(|x| w().mono.checked_add(x)).filter(|x| *x < 1 << 62)
}
/// Put the current task at the back of the run queue.
pub fn yield_back(me: usize) {
    w().run_len = 0;
    w().runq.push_back(me);
    suspend();
}
