//! Channels under the scheduler.
use crate::rt::{self, Meta, Wait};
use std::collections::VecDeque;
use std::fmt;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct Chan<T> {
    meta: Meta,
    q: Mutex<VecDeque<T>>,
    len: AtomicUsize,
    taken: AtomicUsize,
    sent: AtomicUsize,
    senders: AtomicUsize,
    /// receivers that have arrived at a rendezvous channel
    waiting: AtomicUsize,
    rx: AtomicBool,
    cap: Option<usize>,
}
struct View {
    p: usize,
}
impl<T> Chan<T> {
    fn new(cap: Option<usize>) -> Arc<Chan<T>> {
        Arc::new(Chan { meta: Meta::new(), q: Mutex::new(VecDeque::new()), len: AtomicUsize::new(0), taken: AtomicUsize::new(0), sent: AtomicUsize::new(0), senders: AtomicUsize::new(1), waiting: AtomicUsize::new(0), rx: AtomicBool::new(true), cap })
    }
    /// A condition over this channel, which the waiting thread keeps alive.
    fn cond(&self, f: fn(&Chan<T>) -> bool) -> Box<dyn Fn() -> bool + Send> {
        let v = View { p: self as *const Chan<T> as usize };
        let f = f as usize;
        Box::new(move || {
            let f: fn(&Chan<T>) -> bool = unsafe { std::mem::transmute(f) };
            f(unsafe { &*(v.p as *const Chan<T>) })
        })
    }
    fn push(&self, t: T) -> Result<usize, SendError<T>> {
        if !self.rx.load(SeqCst) {
            return Err(SendError(t));
        }
        self.q.lock().unwrap().push_back(t);
        self.len.fetch_add(1, SeqCst);
        Ok(self.sent.fetch_add(1, SeqCst))
    }
    fn pop(&self) -> Option<T> {
        let x = self.q.lock().unwrap().pop_front();
        if x.is_some() {
            self.len.fetch_sub(1, SeqCst);
            self.taken.fetch_add(1, SeqCst);
        }
        x
    }
    fn room(&self) -> bool {
        !self.rx.load(SeqCst) || self.cap.map_or(true, |c| self.len.load(SeqCst) < c.max(1))
    }
    fn ready(&self) -> bool {
        self.len.load(SeqCst) > 0 || self.senders.load(SeqCst) == 0
    }
    /// A receiver comes to a rendezvous channel: from now on `try_send` succeeds.
    fn arrive(&self) {
        if self.cap == Some(0) {
            rt::point(&self.meta, "arrive", Wait::No);
            self.waiting.fetch_add(1, SeqCst);
        }
    }
    fn depart(&self) {
        if self.cap == Some(0) {
            self.waiting.fetch_sub(1, SeqCst);
        }
    }
    fn leave(&self) {
        rt::point(&self.meta, "drop sender", Wait::No);
        self.senders.fetch_sub(1, SeqCst);
    }
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for SyncSender<T> {}
unsafe impl<T: Send> Sync for SyncSender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = Chan::new(None);
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = Chan::new(Some(bound));
    (SyncSender(c.clone()), Receiver(c))
}
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        rt::point(&self.0.meta, "send", Wait::No);
        self.0.push(t).map(|_| ())
    }
}
impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        rt::point(&self.0.meta, "sync send", Wait::Until(self.0.cond(Chan::room)));
        let k = self.0.push(t)?;
        if self.0.cap == Some(0) {
            // rendezvous: wait until the value has been taken
            let p = &*self.0 as *const Chan<T> as usize;
            rt::point(
                &self.0.meta,
                "rendezvous",
                Wait::Until(Box::new(move || {
                    let c = unsafe { &*(p as *const Chan<T>) };
                    c.taken.load(SeqCst) > k || !c.rx.load(SeqCst)
                })),
            );
            if self.0.taken.load(SeqCst) <= k {
                if let Some(t) = self.0.pop() {
                    return Err(SendError(t));
                }
            }
        }
        Ok(())
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        rt::point(&self.0.meta, "try_send", Wait::No);
        let full = match self.0.cap {
            Some(0) => self.0.waiting.load(SeqCst) <= self.0.len.load(SeqCst),
            _ => !self.0.room(),
        };
        if self.0.rx.load(SeqCst) && full {
            return Err(TrySendError::Full(t));
        }
        self.0.push(t).map(|_| ()).map_err(|e| TrySendError::Disconnected(e.0))
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        rt::touch(&self.0.meta, "clone");
        self.0.senders.fetch_add(1, SeqCst);
        Sender(self.0.clone())
    }
}
impl<T> Clone for SyncSender<T> {
    fn clone(&self) -> Self {
        rt::touch(&self.0.meta, "clone");
        self.0.senders.fetch_add(1, SeqCst);
        SyncSender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.leave();
    }
}
impl<T> Drop for SyncSender<T> {
    fn drop(&mut self) {
        self.0.leave();
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        rt::point(&self.0.meta, "drop receiver", Wait::No);
        self.0.rx.store(false, SeqCst);
        let q = std::mem::take(&mut *self.0.q.lock().unwrap());
        self.0.len.store(0, SeqCst);
        drop(q);
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        self.0.arrive();
        rt::point(&self.0.meta, "recv", Wait::Until(self.0.cond(Chan::ready)));
        self.0.depart();
        self.0.pop().ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        rt::point(&self.0.meta, "try_recv", Wait::No);
        match self.0.pop() {
            Some(x) => Ok(x),
            None if self.0.senders.load(SeqCst) == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, _: Duration) -> Result<T, RecvTimeoutError> {
        self.0.arrive();
        rt::point(&self.0.meta, "recv_timeout", Wait::Timed(self.0.cond(Chan::ready)));
        self.0.depart();
        match self.0.pop() {
            Some(x) => Ok(x),
            None if self.0.senders.load(SeqCst) == 0 => Err(RecvTimeoutError::Disconnected),
            None => Err(RecvTimeoutError::Timeout),
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sender")
    }
}
impl<T> fmt::Debug for SyncSender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SyncSender")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver")
    }
}
