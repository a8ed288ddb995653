//! `std::sync` with every blocking primitive under the scheduler's control.
pub use ::std::sync::*;
use crate::world::{block, make_runnable, point, touch, w, wake};
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::time::Duration;

pub mod atomic;
pub mod mpsc;

fn addr<T: ?Sized>(x: &T) -> u64 {
    x as *const T as *const u8 as u64
}
fn th(h: &Cell<u64>, k: u64) {
    if crate::world::active() {
        let mut x = h.get();
        touch(&mut x, k);
        h.set(x);
    }
}

pub struct Mutex<T: ?Sized> {
    /// The task that has it, plus one.
    owner: Cell<usize>,
    poisoned: Cell<bool>,
    h: Cell<u64>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    m: &'a Mutex<T>,
    panicking: bool,
    _p: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { owner: Cell::new(0), poisoned: Cell::new(false), h: Cell::new(0), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let v = self.v.into_inner();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn acquire(&self) {
        while self.owner.get() != 0 {
            crate::world::waits_for(&self.owner);
            block(addr(&self.owner), None, "mutex");
            crate::world::waits_no_more();
        }
        self.owner.set(if crate::world::active() { w().cur.wrapping_add(1).max(1) } else { 1 });
        th(&self.h, 1);
    }
    fn release(&self) {
        self.owner.set(0);
        th(&self.h, 2);
        if crate::world::active() {
            wake(addr(&self.owner));
        }
    }
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { m: self, panicking: std::thread::panicking(), _p: std::marker::PhantomData };
        if self.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        point("lock");
        self.acquire();
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        point("try_lock");
        th(&self.h, 3);
        if self.owner.get() != 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.acquire();
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.poisoned.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.get();
        let v = self.v.get_mut();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() {
            self.m.poisoned.set(true);
        }
        self.m.release();
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

pub struct Condvar {
    h: Cell<u64>,
    q: UnsafeCell<Vec<usize>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { h: Cell::new(0), q: UnsafeCell::new(Vec::new()) }
    }
    fn q(&self) -> &mut Vec<usize> {
        unsafe { &mut *self.q.get() }
    }
    /// Returns true on timeout.
    fn inner<T: ?Sized>(&self, m: &Mutex<T>, deadline: Option<u64>) -> bool {
        th(&self.h, 1);
        let me = w().cur;
        if w().spurious && w().devs_on && w().procs[crate::world::cur_pid()].server {
            if crate::explore::choose_sched(2, "spurious") == 1 {
                m.release();
                // Let others run, then return without having been notified.
                make_runnable_later();
                th(&self.h, 2);
                m.acquire();
                return false;
            }
        }
        m.release();
        self.q().push(me);
        let to = block(addr(&self.h), deadline, "condvar");
        self.q().retain(|x| *x != me);
        th(&self.h, 3);
        m.acquire();
        to
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        std::mem::forget(g);
        self.inner(m, None);
        m.guard()
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut c: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T: ?Sized>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let m = g.m;
        std::mem::forget(g);
        let dl = crate::world::deadline(d);
        let to = self.inner(m, dl);
        match m.guard() {
            Ok(g) => Ok((g, WaitTimeoutResult(to))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(to)))),
        }
    }
    pub fn wait_timeout_ms<'a, T: ?Sized>(
        &self,
        g: MutexGuard<'a, T>,
        ms: u32,
    ) -> LockResult<(MutexGuard<'a, T>, bool)> {
        match self.wait_timeout(g, Duration::from_millis(ms as u64)) {
            Ok((g, r)) => Ok((g, !r.timed_out())),
            Err(e) => {
                let (g, r) = e.into_inner();
                Err(PoisonError::new((g, !r.timed_out())))
            }
        }
    }
    pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut c: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let end = crate::world::deadline(d);
        loop {
            if !c(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let now = w().mono;
            let left = match end {
                Some(e) if e <= now => return Ok((g, WaitTimeoutResult(true))),
                Some(e) => Duration::from_nanos(e - now),
                None => d,
            };
            g = self.wait_timeout(g, left)?.0;
        }
    }
    fn wake_one(&self) -> bool {
        let q = self.q();
        for i in 0..q.len() {
            let t = q[i];
            if let crate::world::St::Blocked { key, .. } = w().tasks[t].st {
                if key == addr(&self.h) {
                    q.remove(i);
                    make_runnable(t);
                    return true;
                }
            }
        }
        false
    }
    pub fn notify_one(&self) {
        point("notify");
        th(&self.h, 4);
        if crate::world::active() {
            self.wake_one();
        }
    }
    pub fn notify_all(&self) {
        point("notify");
        th(&self.h, 5);
        if crate::world::active() {
            while self.wake_one() {}
        }
    }
}
fn make_runnable_later() {
    let me = w().cur;
    // Equivalent to yielding to everything that is runnable now.
    crate::world::yield_back(me);
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

pub struct RwLock<T: ?Sized> {
    /// -1: write locked, otherwise the number of readers.
    n: Cell<isize>,
    poisoned: Cell<bool>,
    h: Cell<u64>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _p: std::marker::PhantomData<*const ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    panicking: bool,
    _p: std::marker::PhantomData<*const ()>,
}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { n: Cell::new(0), poisoned: Cell::new(false), h: Cell::new(0), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    fn res<G>(&self, g: G) -> LockResult<G> {
        if self.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        point("read");
        while self.n.get() < 0 {
            block(addr(&self.n), None, "rwlock");
        }
        self.n.set(self.n.get() + 1);
        th(&self.h, 1);
        self.res(RwLockReadGuard { l: self, _p: std::marker::PhantomData })
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        point("write");
        while self.n.get() != 0 {
            block(addr(&self.n), None, "rwlock");
        }
        self.n.set(-1);
        th(&self.h, 2);
        self.res(RwLockWriteGuard { l: self, panicking: std::thread::panicking(), _p: std::marker::PhantomData })
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        point("try_read");
        if self.n.get() < 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.read().map_err(TryLockError::Poisoned)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        point("try_write");
        if self.n.get() != 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.write().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.n.set(self.l.n.get() - 1);
        th(&self.l.h, 3);
        if crate::world::active() {
            wake(addr(&self.l.n));
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() {
            self.l.poisoned.set(true);
        }
        self.l.n.set(0);
        th(&self.l.h, 4);
        if crate::world::active() {
            wake(addr(&self.l.n));
        }
    }
}

pub struct Barrier {
    n: usize,
    st: Mutex<(usize, usize)>,
    cv: Condvar,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { n, st: Mutex::new((0, 0)), cv: Condvar::new() }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.st.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.cv.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}
