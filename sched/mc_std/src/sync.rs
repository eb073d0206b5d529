//! Locks, channels and atomics under the scheduler. Memory is sequentially consistent.
pub use std::sync::*;
pub mod atomic;
pub mod mpsc;

use crate::rt::{self, Meta, Wait};
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicBool as B, AtomicIsize as I, AtomicUsize as U, Ordering::SeqCst};
use std::time::Duration;

type Cond = Box<dyn Fn() -> bool + Send>;
/// A condition over a field of an object that outlives the wait.
fn on<T: Sync + 'static>(x: &T, f: fn(&T) -> bool) -> Cond {
    let p = x as *const T as usize;
    Box::new(move || f(unsafe { &*(p as *const T) }))
}

pub struct Mutex<T: ?Sized> {
    meta: Meta,
    held: B,
    inner: std::sync::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    g: Option<std::sync::MutexGuard<'a, T>>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { meta: Meta::new(), held: B::new(false), inner: std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn take(&self) -> LockResult<MutexGuard<'_, T>> {
        self.held.store(true, SeqCst);
        match self.inner.lock() {
            Ok(g) => Ok(MutexGuard { m: self, g: Some(g) }),
            Err(e) => Err(PoisonError::new(MutexGuard { m: self, g: Some(e.into_inner()) })),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        rt::point(&self.meta, "lock", Wait::Until(on(&self.held, |h| !h.load(SeqCst))));
        self.take()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        rt::point(&self.meta, "try_lock", Wait::No);
        if self.held.load(SeqCst) {
            return Err(TryLockError::WouldBlock);
        }
        self.take().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> MutexGuard<'_, T> {
    fn release(&mut self) {
        drop(self.g.take());
        self.m.held.store(false, SeqCst);
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if self.g.is_some() {
            rt::point(&self.m.meta, "unlock", Wait::No);
            self.release();
        }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
pub struct Condvar {
    meta: Meta,
    waiters: std::sync::Mutex<Vec<Arc<B>>>,
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { meta: Meta::new(), waiters: std::sync::Mutex::new(Vec::new()) }
    }
    fn wait_x<'a, T>(&self, mut g: MutexGuard<'a, T>, timed: bool) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let m = g.m;
        let flag = Arc::new(B::new(false));
        rt::point(&self.meta, "condvar wait", Wait::No);
        self.waiters.lock().unwrap().push(flag.clone());
        rt::touch(&m.meta, "unlock");
        g.release();
        drop(g);
        let f2 = flag.clone();
        let c: Cond = Box::new(move || f2.load(SeqCst));
        rt::point(&self.meta, "condvar wake", if timed { Wait::Timed(c) } else { Wait::Until(c) });
        let woken = flag.load(SeqCst);
        self.waiters.lock().unwrap().retain(|w| !Arc::ptr_eq(w, &flag));
        (m.lock(), !woken)
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_x(g, false).0
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (g, t) = self.wait_x(g, true);
        match g {
            Ok(g) => Ok((g, WaitTimeoutResult(t))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
        }
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, d: Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        loop {
            if !f(&mut g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let (g2, t) = self.wait_timeout(g, d)?;
            g = g2;
            if t.timed_out() {
                return Ok((g, t));
            }
        }
    }
    pub fn notify_one(&self) {
        rt::point(&self.meta, "notify_one", Wait::No);
        let n = self.waiters.lock().unwrap().len();
        if n > 0 {
            let k = rt::choose(n);
            let w = self.waiters.lock().unwrap().remove(k);
            w.store(true, SeqCst);
        }
    }
    pub fn notify_all(&self) {
        rt::point(&self.meta, "notify_all", Wait::No);
        for w in self.waiters.lock().unwrap().drain(..) {
            w.store(true, SeqCst);
        }
    }
}

/// Readers: positive; a writer: -1.
pub struct RwLock<T: ?Sized> {
    meta: Meta,
    n: I,
    inner: std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    g: Option<std::sync::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    g: Option<std::sync::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock { meta: Meta::new(), n: I::new(0), inner: std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        rt::point(&self.meta, "read", Wait::Until(on(&self.n, |n| n.load(SeqCst) >= 0)));
        self.n.fetch_add(1, SeqCst);
        match self.inner.read() {
            Ok(g) => Ok(RwLockReadGuard { l: self, g: Some(g) }),
            Err(e) => Err(PoisonError::new(RwLockReadGuard { l: self, g: Some(e.into_inner()) })),
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        rt::point(&self.meta, "write", Wait::Until(on(&self.n, |n| n.load(SeqCst) == 0)));
        self.n.store(-1, SeqCst);
        match self.inner.write() {
            Ok(g) => Ok(RwLockWriteGuard { l: self, g: Some(g) }),
            Err(e) => Err(PoisonError::new(RwLockWriteGuard { l: self, g: Some(e.into_inner()) })),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        rt::point(&self.l.meta, "read unlock", Wait::No);
        drop(self.g.take());
        self.l.n.fetch_sub(1, SeqCst);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        rt::point(&self.l.meta, "write unlock", Wait::No);
        drop(self.g.take());
        self.l.n.store(0, SeqCst);
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}

pub struct OnceLock<T> {
    meta: Meta,
    busy: B,
    inner: std::sync::OnceLock<T>,
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { meta: Meta::new(), busy: B::new(false), inner: std::sync::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        rt::point(&self.meta, "once get", Wait::No);
        self.inner.get()
    }
    pub fn set(&self, t: T) -> std::result::Result<(), T> {
        rt::point(&self.meta, "once set", Wait::Until(on(&self.busy, |b| !b.load(SeqCst))));
        self.inner.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        rt::point(&self.meta, "once", Wait::Until(on(&self.busy, |b| !b.load(SeqCst))));
        if self.inner.get().is_none() {
            self.busy.store(true, SeqCst);
            struct Reset<'a>(&'a B);
            impl Drop for Reset<'_> {
                fn drop(&mut self) {
                    self.0.store(false, SeqCst);
                }
            }
            let r = Reset(&self.busy);
            let v = f();
            rt::point(&self.meta, "once done", Wait::No);
            let _ = self.inner.set(v);
            drop(r);
        }
        self.inner.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.inner.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.inner.take()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.inner.get_mut()
    }
}
pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    f: UnsafeCell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), f: UnsafeCell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| unsafe { (*this.f.get()).take() }.expect("LazyLock poisoned")())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
pub struct Once(OnceLock<()>);
impl Once {
    pub const fn new() -> Once {
        Once(OnceLock::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.0.get().is_some()
    }
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
pub struct Barrier {
    meta: Meta,
    n: usize,
    arrived: U,
    gen: Arc<U>,
}
impl Barrier {
    pub fn new(n: usize) -> Barrier {
        Barrier { meta: Meta::new(), n, arrived: U::new(0), gen: Arc::new(U::new(0)) }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        rt::point(&self.meta, "barrier", Wait::No);
        let g = self.gen.load(SeqCst);
        if self.arrived.fetch_add(1, SeqCst) + 1 >= self.n {
            self.arrived.store(0, SeqCst);
            self.gen.fetch_add(1, SeqCst);
            return BarrierWaitResult(true);
        }
        let gen = self.gen.clone();
        rt::point(&self.meta, "barrier wait", Wait::Until(Box::new(move || gen.load(SeqCst) != g)));
        BarrierWaitResult(false)
    }
}
