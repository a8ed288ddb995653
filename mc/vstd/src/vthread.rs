//! Threads are tasks of the simulated world.
use crate::world::{block, cur_pid, deadline, key, make_runnable, point, spawn_task, touch, w, yield_back, K_SLEEP, K_TASK};
use std::cell::Cell;
use std::io;
use std::sync::{Arc, Mutex as RealMutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(u64);
#[derive(Clone, Debug)]
pub struct Thread {
    id: usize,
    name: Option<String>,
}
impl Thread {
    pub fn id(&self) -> ThreadId {
        ThreadId(self.id as u64 + 1)
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn unpark(&self) {
        point("unpark");
        let t = &mut w().tasks[self.id];
        t.park_token = true;
        if let crate::world::St::Blocked { key: k, .. } = t.st {
            if k == key(K_SLEEP, self.id) {
                make_runnable(self.id);
            }
        }
    }
}
pub fn current() -> Thread {
    let c = w().cur;
    Thread { id: c, name: Some(w().tasks[c].name.clone()) }
}
fn park_to(d: Option<u64>) {
    point("park");
    let me = w().cur;
    if !w().tasks[me].park_token {
        block(key(K_SLEEP, me), d, "park");
    }
    w().tasks[me].park_token = false;
}
pub fn park() {
    park_to(None)
}
pub fn park_timeout(d: Duration) {
    park_to(deadline(d))
}
pub fn sleep(d: Duration) {
    point("sleep");
    let me = w().cur;
    let end = deadline(d);
    if d.is_zero() {
        return;
    }
    block(key(K_SLEEP, me + (1 << 30)), end, "sleep");
}
pub fn sleep_until(t: Instant) {
    sleep(t.saturating_duration_since(Instant::now()))
}
pub fn sleep_ms(ms: u32) {
    sleep(Duration::from_millis(ms as u64))
}
pub fn yield_now() {
    point("yield");
    yield_back(w().cur);
}

type Slot<T> = Arc<RealMutex<Option<std::thread::Result<T>>>>;
pub struct JoinHandle<T> {
    id: usize,
    name: Option<String>,
    slot: Slot<T>,
}
impl<T> JoinHandle<T> {
    pub fn thread(&self) -> Thread {
        Thread { id: self.id, name: self.name.clone() }
    }
    pub fn is_finished(&self) -> bool {
        point("is_finished");
        matches!(w().tasks[self.id].st, crate::world::St::Done)
    }
    pub fn join(self) -> std::thread::Result<T> {
        point("join");
        while !matches!(w().tasks[self.id].st, crate::world::St::Done) {
            block(key(K_TASK, self.id), None, "join");
        }
        let mut h = w().tasks[self.id].h;
        touch(&mut h, 9);
        self.slot.lock().unwrap().take().unwrap_or_else(|| Err(Box::new("panicked")))
    }
}
fn start<T: 'static>(name: Option<String>, f: Box<dyn FnOnce() -> T>) -> JoinHandle<T> {
    // A task that starts one thread after the other without ever waiting lets them run.
    w().run_len += 1700;
    point("spawn");
    let slot: Slot<T> = Arc::new(RealMutex::new(None));
    let s2 = slot.clone();
    let n = w().tasks.len();
    let id = spawn_task(
        cur_pid(),
        name.clone().unwrap_or_else(|| format!("t{n}")),
        Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            match r {
                Ok(x) => *s2.lock().unwrap() = Some(Ok(x)),
                Err(e) => {
                    let m = w().panic_msg.clone();
                    *s2.lock().unwrap() = Some(Err(Box::new(m.clone())));
                    std::panic::resume_unwind(e);
                }
            }
        }),
        false,
    );
    JoinHandle { id, name, slot }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    start(None, Box::new(f))
}
#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder { name: None }
    }
    pub fn name(mut self, n: String) -> Builder {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(start(self.name, Box::new(f)))
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    ids: Arc<RealMutex<Vec<usize>>>,
    scope: std::marker::PhantomData<Cell<&'scope ()>>,
    env: std::marker::PhantomData<Cell<&'env ()>>,
}
pub struct ScopedJoinHandle<'scope, T> {
    h: JoinHandle<T>,
    _p: std::marker::PhantomData<&'scope ()>,
}
impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> std::thread::Result<T> {
        self.h.join()
    }
    pub fn is_finished(&self) -> bool {
        self.h.is_finished()
    }
}
impl<'scope> Scope<'scope, '_> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let b: Box<dyn FnOnce() -> T + 'scope> = Box::new(f);
        // The scope joins every thread before it returns.
        let b: Box<dyn FnOnce() -> T> = unsafe { std::mem::transmute(b) };
        let h: JoinHandle<T> = unsafe {
            let h = start_any(b);
            h
        };
        self.ids.lock().unwrap().push(h.id);
        ScopedJoinHandle { h, _p: std::marker::PhantomData }
    }
}
unsafe fn start_any<T>(f: Box<dyn FnOnce() -> T>) -> JoinHandle<T> {
    point("spawn");
    let slot: Slot<T> = Arc::new(RealMutex::new(None));
    let s2 = slot.clone();
    let n = w().tasks.len();
    let b: Box<dyn FnOnce() + '_> = Box::new(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        *s2.lock().unwrap() = Some(r);
    });
    let b: Box<dyn FnOnce()> = std::mem::transmute(b);
    let id = spawn_task(cur_pid(), format!("s{n}"), b, false);
    JoinHandle { id, name: None, slot }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope { ids: Arc::new(RealMutex::new(vec![])), scope: std::marker::PhantomData, env: std::marker::PhantomData };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&s)));
    let ids = s.ids.lock().unwrap().clone();
    for id in ids {
        while !matches!(w().tasks[id].st, crate::world::St::Done) {
            block(key(K_TASK, id), None, "scope");
        }
    }
    match r {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    }
}
