//! Threads under the scheduler.
use crate::rt::{self, Meta, Wait};
use std::any::Any;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::{Arc, Mutex};
pub use std::thread::{available_parallelism, panicking, AccessError, LocalKey, Result, ThreadId};
use std::time::Duration;

struct ThIn {
    name: Option<String>,
    token: AtomicBool,
    meta: Meta,
    id: Mutex<Option<ThreadId>>,
}
#[derive(Clone)]
pub struct Thread(Arc<ThIn>);
impl Thread {
    fn new(name: Option<String>) -> Thread {
        Thread(Arc::new(ThIn { name, token: AtomicBool::new(false), meta: Meta::new(), id: Mutex::new(None) }))
    }
    pub fn name(&self) -> Option<&str> {
        self.0.name.as_deref()
    }
    pub fn id(&self) -> ThreadId {
        self.0.id.lock().unwrap().unwrap_or_else(|| std::thread::current().id())
    }
    pub fn unpark(&self) {
        rt::point(&self.0.meta, "unpark", Wait::No);
        self.0.token.store(true, SeqCst);
    }
}
thread_local! {
    static ME: Thread = Thread::new(None);
    static SET: std::cell::RefCell<Option<Thread>> = const { std::cell::RefCell::new(None) };
}
pub fn current() -> Thread {
    SET.with(|s| s.borrow().clone()).unwrap_or_else(|| ME.with(|t| t.clone()))
}
pub fn park() {
    let t = current();
    let p = t.0.clone();
    rt::point(&t.0.meta, "park", Wait::Until(Box::new(move || p.token.load(SeqCst))));
    t.0.token.store(false, SeqCst);
}
pub fn park_timeout(_: Duration) {
    let t = current();
    let p = t.0.clone();
    rt::point(&t.0.meta, "park_timeout", Wait::Timed(Box::new(move || p.token.load(SeqCst))));
    t.0.token.store(false, SeqCst);
}
static TICK: Meta = Meta::new();
pub fn yield_now() {
    rt::yield_now(&Meta::new());
}
pub fn sleep(_: Duration) {
    let _ = &TICK;
    rt::point(&Meta::new(), "sleep", Wait::Timed(Box::new(|| false)));
}

struct Packet<T> {
    r: Mutex<Option<Result<T>>>,
    meta: Meta,
    id: usize,
}
pub struct JoinHandle<T> {
    p: Arc<Packet<T>>,
    t: Thread,
    managed: bool,
    os: Option<std::thread::JoinHandle<()>>,
}
impl<T> JoinHandle<T> {
    pub fn join(mut self) -> Result<T> {
        if self.managed {
            rt::point(&self.p.meta, "join", Wait::Until(Box::new(rt::done(self.p.id))));
        }
        if let Some(os) = self.os.take() {
            if !self.managed {
                let _ = os.join();
            }
        }
        self.p.r.lock().unwrap().take().expect("thread result")
    }
    pub fn is_finished(&self) -> bool {
        if self.managed {
            rt::point(&self.p.meta, "is_finished", Wait::No);
        }
        self.p.r.lock().unwrap().is_some()
    }
    pub fn thread(&self) -> &Thread {
        &self.t
    }
}
fn run<T>(p: Arc<Packet<T>>, t: Thread, f: impl FnOnce() -> T) {
    *t.0.id.lock().unwrap() = Some(std::thread::current().id());
    SET.with(|s| *s.borrow_mut() = Some(t));
    let r = catch_unwind(AssertUnwindSafe(f));
    if r.is_err() {
        rt::note_panic("panicked".into());
    }
    rt::touch(&p.meta, "exit");
    *p.r.lock().unwrap() = Some(r);
    rt::mark_finished();
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}
#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder { name: None }
    }
    pub fn name(mut self, n: String) -> Builder {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        self.start(f, false)
    }
    /// A pool thread, which may stay idle at the end.
    pub fn spawn_daemon<F>(self, f: F) -> std::io::Result<JoinHandle<()>>
    where
        F: FnOnce() + Send + 'static,
    {
        self.start(f, true)
    }
    fn start<F, T>(self, f: F, daemon: bool) -> std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let t = Thread::new(self.name);
        let slot: Arc<Mutex<Option<Arc<Packet<T>>>>> = Arc::new(Mutex::new(None));
        let (t2, s2) = (t.clone(), slot.clone());
        let job = move || {
            let p = s2.lock().unwrap().take().unwrap();
            run(p, t2, f)
        };
        if rt::managed() {
            let (id, w) = rt::new_thread(daemon, job);
            let p = Arc::new(Packet { r: Mutex::new(None), meta: Meta::new(), id });
            *slot.lock().unwrap() = Some(p.clone());
            let os = std::thread::Builder::new().spawn(w)?;
            Ok(JoinHandle { p, t, managed: true, os: Some(os) })
        } else {
            let p = Arc::new(Packet { r: Mutex::new(None), meta: Meta::new(), id: 0 });
            *slot.lock().unwrap() = Some(p.clone());
            let os = std::thread::Builder::new().spawn(job)?;
            Ok(JoinHandle { p, t, managed: false, os: Some(os) })
        }
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(self, s: &'scope Scope<'scope, 'env>, f: F) -> std::io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let f: Box<dyn FnOnce() -> Box<dyn Any + Send> + Send + 'scope> = Box::new(move || {
            let t: T = f();
            // the value is moved out again by `join`, within the scope
            Box::new(Raw(Box::into_raw(Box::new(t)) as usize)) as Box<dyn Any + Send>
        });
        // the scope waits for the thread before 'scope ends
        let f: Box<dyn FnOnce() -> Box<dyn Any + Send> + Send + 'static> = unsafe { std::mem::transmute(f) };
        let pending = s.pending.clone();
        let meta = s.meta.clone();
        let failed = s.failed.clone();
        pending.fetch_add(1, SeqCst);
        let h = self.spawn(move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            rt::touch(&meta, "scoped exit");
            if r.is_err() {
                failed.store(true, SeqCst);
            }
            pending.fetch_sub(1, SeqCst);
            match r {
                Ok(x) => x,
                Err(e) => std::panic::resume_unwind(e),
            }
        })?;
        Ok(ScopedJoinHandle { h, failed: s.failed.clone(), _p: PhantomData })
    }
}
struct Raw(usize);
pub struct Scope<'scope, 'env: 'scope> {
    pending: Arc<std::sync::atomic::AtomicUsize>,
    failed: Arc<AtomicBool>,
    meta: Arc<Meta>,
    scope: PhantomData<&'scope mut &'scope ()>,
    env: PhantomData<&'env mut &'env ()>,
}
pub struct ScopedJoinHandle<'scope, T> {
    h: JoinHandle<Box<dyn Any + Send>>,
    failed: Arc<AtomicBool>,
    _p: PhantomData<&'scope T>,
}
impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> Result<T> {
        match self.h.join() {
            Ok(x) => Ok(*unsafe { Box::from_raw(x.downcast::<Raw>().unwrap().0 as *mut T) }),
            Err(e) => {
                self.failed.store(false, SeqCst);
                Err(e)
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        self.h.is_finished()
    }
    pub fn thread(&self) -> &Thread {
        self.h.thread()
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Builder::new().spawn_scoped(self, f).expect("failed to spawn thread")
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope { pending: Arc::new(std::sync::atomic::AtomicUsize::new(0)), failed: Arc::new(AtomicBool::new(false)), meta: Arc::new(Meta::new()), scope: PhantomData, env: PhantomData };
    let r = catch_unwind(AssertUnwindSafe(|| f(&s)));
    let p = s.pending.clone();
    rt::point(&s.meta, "scope end", Wait::Until(Box::new(move || p.load(SeqCst) == 0)));
    match r {
        Err(e) => std::panic::resume_unwind(e),
        Ok(_) if s.failed.load(SeqCst) => panic!("a scoped thread panicked"),
        Ok(x) => x,
    }
}
