//! Channels on top of the scheduler-controlled Mutex and Condvar.
use super::{Condvar, Mutex};
pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use std::collections::VecDeque;
use std::sync::Arc;
use std::time::Duration;

struct Ch<T> {
    q: VecDeque<T>,
    cap: Option<usize>,
    senders: usize,
    receiver: bool,
}
struct Inner<T> {
    m: Mutex<Ch<T>>,
    rx: Condvar,
    tx: Condvar,
}
pub struct Sender<T>(Arc<Inner<T>>);
pub struct SyncSender<T>(Arc<Inner<T>>);
pub struct Receiver<T>(Arc<Inner<T>>);

fn mk<T>(cap: Option<usize>) -> Arc<Inner<T>> {
    Arc::new(Inner {
        m: Mutex::new(Ch { q: VecDeque::new(), cap, senders: 1, receiver: true }),
        rx: Condvar::new(),
        tx: Condvar::new(),
    })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let i = mk(None);
    (Sender(i.clone()), Receiver(i))
}
/// A bound of zero is approximated by one.
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let i = mk(Some(n.max(1)));
    (SyncSender(i.clone()), Receiver(i))
}
impl<T> Inner<T> {
    fn send(&self, t: T) -> Result<(), SendError<T>> {
        let mut g = self.m.lock().unwrap();
        loop {
            if !g.receiver {
                return Err(SendError(t));
            }
            if g.cap.map_or(true, |c| g.q.len() < c) {
                g.q.push_back(t);
                self.rx.notify_one();
                return Ok(());
            }
            g = self.tx.wait(g).unwrap();
        }
    }
    fn drop_tx(&self) {
        if std::thread::panicking() {
            return;
        }
        let mut g = self.m.lock().unwrap();
        g.senders -= 1;
        if g.senders == 0 {
            self.rx.notify_all();
        }
    }
    fn clone_tx(&self) {
        self.m.lock().unwrap().senders += 1;
    }
}
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.0.send(t)
    }
}
impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.0.send(t)
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        let g = self.0.m.lock().unwrap();
        if !g.receiver {
            return Err(TrySendError::Disconnected(t));
        }
        if g.q.len() >= g.cap.unwrap() {
            return Err(TrySendError::Full(t));
        }
        drop(g);
        self.0.send(t).map_err(|e| TrySendError::Disconnected(e.0))
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.clone_tx();
        Sender(self.0.clone())
    }
}
impl<T> Clone for SyncSender<T> {
    fn clone(&self) -> Self {
        self.0.clone_tx();
        SyncSender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.drop_tx()
    }
}
impl<T> Drop for SyncSender<T> {
    fn drop(&mut self) {
        self.0.drop_tx()
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        if std::thread::panicking() {
            return;
        }
        let mut g = self.0.m.lock().unwrap();
        g.receiver = false;
        g.q.clear();
        self.0.tx.notify_all();
    }
}
impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut g = self.0.m.lock().unwrap();
        match g.q.pop_front() {
            Some(x) => {
                self.0.tx.notify_one();
                Ok(x)
            }
            None if g.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        let mut g = self.0.m.lock().unwrap();
        loop {
            if let Some(x) = g.q.pop_front() {
                self.0.tx.notify_one();
                return Ok(x);
            }
            if g.senders == 0 {
                return Err(RecvError);
            }
            g = self.0.rx.wait(g).unwrap();
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let end = crate::world::deadline(d);
        let mut g = self.0.m.lock().unwrap();
        loop {
            if let Some(x) = g.q.pop_front() {
                self.0.tx.notify_one();
                return Ok(x);
            }
            if g.senders == 0 {
                return Err(RecvTimeoutError::Disconnected);
            }
            let now = crate::world::w().mono;
            let left = match end {
                Some(e) if e <= now => return Err(RecvTimeoutError::Timeout),
                Some(e) => Duration::from_nanos(e - now),
                None => d,
            };
            g = self.0.rx.wait_timeout(g, left).unwrap().0;
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        Iter(self)
    }
}
