//! Model of rayon-core 1.13: worker threads with a deque each (own end LIFO, stolen end FIFO), a
//! global injector, jobs that wait for latches by running other jobs. Every deque, injector and
//! latch access is a scheduling point; which victim a thief takes from is a choice.
use mc_std::rt::{self, Meta, Wait};
use std::any::Any;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// Number of threads of the global pool of the current exploration.
pub static GLOBAL_THREADS: AtomicUsize = AtomicUsize::new(2);

type Body = Box<dyn FnOnce(bool) + Send>;
struct Job {
    id: usize,
    f: Body,
}
struct Queue {
    meta: Meta,
    q: Mutex<VecDeque<Job>>,
    len: AtomicUsize,
}
impl Queue {
    fn new() -> Queue {
        Queue { meta: Meta::new(), q: Mutex::new(VecDeque::new()), len: AtomicUsize::new(0) }
    }
    fn push(&self, j: Job, what: &'static str) {
        rt::point(&self.meta, what, Wait::No);
        self.q.lock().unwrap().push_back(j);
        self.len.fetch_add(1, SeqCst);
    }
    fn take(&self, back: bool, what: &'static str) -> Option<Job> {
        rt::point(&Meta::new(), what, Wait::No);
        let mut q = self.q.lock().unwrap();
        let j = if back { q.pop_back() } else { q.pop_front() };
        if j.is_some() {
            rt::touch(&self.meta, what);
            self.len.fetch_sub(1, SeqCst);
        }
        j
    }
}
struct Registry {
    deques: Vec<Queue>,
    injector: Queue,
    ids: AtomicUsize,
    exit: Arc<AtomicBool>,
    meta: Meta,
}
#[derive(Clone)]
struct Worker {
    reg: Arc<Registry>,
    index: usize,
}
thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}
fn worker() -> Option<Worker> {
    WORKER.with(|w| w.borrow().clone())
}
struct Latch {
    meta: Meta,
    n: AtomicUsize,
}
impl Latch {
    fn new(n: usize) -> Arc<Latch> {
        Arc::new(Latch { meta: Meta::new(), n: AtomicUsize::new(n) })
    }
    fn add(&self) {
        rt::touch(&self.meta, "latch add");
        self.n.fetch_add(1, SeqCst);
    }
    fn set(&self) {
        rt::point(&self.meta, "latch set", Wait::No);
        self.n.fetch_sub(1, SeqCst);
    }
    fn probe(&self) -> bool {
        self.n.load(SeqCst) == 0
    }
}
impl Registry {
    fn start(n: usize) -> Arc<Registry> {
        let reg = Arc::new(Registry { deques: (0..n).map(|_| Queue::new()).collect(), injector: Queue::new(), ids: AtomicUsize::new(1), exit: Arc::new(AtomicBool::new(false)), meta: Meta::new() });
        for index in 0..n {
            let w = Worker { reg: reg.clone(), index };
            mc_std::thread::Builder::new()
                .spawn_daemon(move || {
                    WORKER.with(|x| *x.borrow_mut() = Some(w.clone()));
                    w.main_loop();
                    WORKER.with(|x| *x.borrow_mut() = None);
                })
                .expect("pool thread");
        }
        reg
    }
    fn global() -> Arc<Registry> {
        struct Slot(Mutex<Option<Arc<Registry>>>);
        let s = rt::slot("rayon", || Slot(Mutex::new(None)));
        if let Some(r) = &*s.0.lock().unwrap() {
            return r.clone();
        }
        let r = Registry::start(GLOBAL_THREADS.load(SeqCst));
        *s.0.lock().unwrap() = Some(r.clone());
        r
    }
    fn job(&self, f: impl FnOnce(bool) + Send) -> Job {
        let f: Box<dyn FnOnce(bool) + Send + '_> = Box::new(f);
        // every creator of a job waits until it has run, or passes an owned closure
        let f: Body = unsafe { std::mem::transmute(f) };
        Job { id: self.ids.fetch_add(1, SeqCst), f }
    }
    fn has_work(&self) -> bool {
        self.injector.len.load(SeqCst) > 0 || self.deques.iter().any(|d| d.len.load(SeqCst) > 0)
    }
    fn inject_or_push(self: &Arc<Self>, j: Job) {
        match worker() {
            Some(w) if Arc::ptr_eq(&w.reg, self) => self.deques[w.index].push(j, "push"),
            _ => self.injector.push(j, "inject"),
        }
    }
    /// Run `f` in a thread of this pool and wait for it.
    fn in_worker<R: Send>(self: &Arc<Self>, f: impl FnOnce(&Worker, bool) -> R + Send) -> R {
        match worker() {
            Some(w) if Arc::ptr_eq(&w.reg, self) => f(&w, false),
            me => {
                let latch = Latch::new(1);
                let out: Mutex<Option<std::thread::Result<R>>> = Mutex::new(None);
                {
                    let (l, o) = (latch.clone(), &out);
                    let j = self.job(move |_| {
                        let w = worker().unwrap();
                        let r = catch_unwind(AssertUnwindSafe(|| f(&w, true)));
                        *o.lock().unwrap() = Some(r);
                        l.set();
                    });
                    self.injector.push(j, "inject");
                }
                match me {
                    // a thread of another pool keeps working for its own
                    Some(w) => w.wait(&latch),
                    None => block(&latch),
                }
                let r = out.lock().unwrap().take().unwrap();
                r.unwrap_or_else(|e| resume_unwind(e))
            }
        }
    }
}
fn block(l: &Arc<Latch>) {
    let l2 = l.clone();
    rt::point(&l.meta, "latch wait", Wait::Until(Box::new(move || l2.probe())));
}
impl Worker {
    fn main_loop(&self) {
        loop {
            let (reg, down, h) = (self.reg.clone(), rt::shutdown_flag(), rt::mark());
            rt::point_idle(&Meta::new(), "pool idle", Box::new(move || down() || reg.exit.load(SeqCst) || reg.has_work()));
            if rt::shutting_down() || (self.reg.exit.load(SeqCst) && !self.reg.has_work()) {
                return;
            }
            match self.find_work() {
                Some(j) => self.run(j),
                None => rt::forget(h),
            }
        }
    }
    fn run(&self, j: Job) {
        (j.f)(true);
    }
    fn take_local(&self) -> Option<Job> {
        let d = &self.reg.deques[self.index];
        if d.len.load(SeqCst) == 0 {
            // only this thread adds to the deque
            return None;
        }
        d.take(true, "pop")
    }
    fn find_work(&self) -> Option<Job> {
        if let Some(j) = self.take_local() {
            return Some(j);
        }
        let victims: Vec<usize> = (0..self.reg.deques.len()).filter(|&i| i != self.index && self.reg.deques[i].len.load(SeqCst) > 0).collect();
        if !victims.is_empty() {
            let v = victims[rt::choose(victims.len())];
            if let Some(j) = self.reg.deques[v].take(false, "steal") {
                return Some(j);
            }
        }
        if self.reg.injector.len.load(SeqCst) > 0 {
            return self.reg.injector.take(false, "take injected");
        }
        None
    }
    /// Work on other jobs until the latch is set.
    fn wait(&self, l: &Arc<Latch>) {
        loop {
            let (l2, reg, h) = (l.clone(), self.reg.clone(), rt::mark());
            rt::point(&Meta::new(), "wait_until", Wait::Until(Box::new(move || l2.probe() || reg.has_work())));
            if l.probe() {
                rt::touch(&l.meta, "latch seen");
                return;
            }
            match self.find_work() {
                Some(j) => self.run(j),
                None => rt::forget(h),
            }
        }
    }
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}
fn ctx(migrated: bool) -> FnContext {
    FnContext { migrated, _m: PhantomData }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(move |_| a(), move |_| b())
}
fn home() -> Arc<Registry> {
    worker().map(|w| w.reg).unwrap_or_else(Registry::global)
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    home().in_worker(move |w, injected| {
        let latch = Latch::new(1);
        let out: Mutex<Option<std::thread::Result<RB>>> = Mutex::new(None);
        let id;
        {
            let (l, o) = (latch.clone(), &out);
            let j = w.reg.job(move |migrated| {
                let r = catch_unwind(AssertUnwindSafe(|| b(ctx(migrated))));
                *o.lock().unwrap() = Some(r);
                l.set();
            });
            id = j.id;
            w.reg.deques[w.index].push(j, "push");
        }
        let ra = catch_unwind(AssertUnwindSafe(|| a(ctx(injected))));
        loop {
            if latch.probe() {
                break;
            }
            match w.take_local() {
                None => {
                    w.wait(&latch);
                    break;
                }
                Some(j) if j.id == id => (j.f)(injected),
                Some(j) => w.run(j),
            }
        }
        let rb = out.lock().unwrap().take().unwrap();
        match (ra, rb) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), _) | (_, Err(e)) => resume_unwind(e),
        }
    })
}

pub struct Scope<'s> {
    reg: Arc<Registry>,
    latch: Arc<Latch>,
    panic: Mutex<Option<Box<dyn Any + Send>>>,
    _m: PhantomData<Box<dyn FnOnce(&Scope<'s>) + Send + Sync + 's>>,
}
impl fmt::Debug for Scope<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Scope")
    }
}
struct Ptr<T>(*const T);
unsafe impl<T: Sync> Send for Ptr<T> {}
impl<T> Ptr<T> {
    fn get(&self) -> &T {
        unsafe { &*self.0 }
    }
}
impl<'s> Scope<'s> {
    fn new(reg: Arc<Registry>) -> Self {
        Scope { reg, latch: Latch::new(1), panic: Mutex::new(None), _m: PhantomData }
    }
    pub fn spawn<B>(&self, body: B)
    where
        B: FnOnce(&Scope<'s>) + Send + 's,
    {
        let p = Ptr(self);
        self.latch.add();
        let j = self.reg.job(move |_| {
            let s: &Scope<'s> = p.get();
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| body(s))) {
                s.panic.lock().unwrap().get_or_insert(e);
            }
            // keep the latch alive beyond the scope
            let l = s.latch.clone();
            l.set();
        });
        self.reg.inject_or_push(j);
    }
    pub fn spawn_broadcast<B>(&self, _: B)
    where
        B: Fn(&Scope<'s>, BroadcastContext<'_>) + Send + Sync + 's,
    {
        unimplemented!("not modelled")
    }
    fn complete<R>(&self, f: impl FnOnce() -> R) -> R {
        let r = catch_unwind(AssertUnwindSafe(f));
        self.latch.set();
        match worker() {
            // (a thread of another pool keeps working for its own)
            Some(w) => w.wait(&self.latch),
            None => block(&self.latch),
        }
        if let Some(e) = self.panic.lock().unwrap().take() {
            resume_unwind(e);
        }
        r.unwrap_or_else(|e| resume_unwind(e))
    }
}
pub fn scope<'s, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'s>) -> R + Send,
    R: Send,
{
    home().in_worker(|w, _| {
        let s = Scope::new(w.reg.clone());
        s.complete(|| op(&s))
    })
}
pub fn in_place_scope<'s, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'s>) -> R,
{
    let s = Scope::new(home());
    s.complete(|| op(&s))
}
/// (FIFO scopes are modelled like the others: their jobs are independent)
pub struct ScopeFifo<'s>(Scope<'s>);
impl<'s> ScopeFifo<'s> {
    pub fn spawn_fifo<B>(&self, body: B)
    where
        B: FnOnce(&ScopeFifo<'s>) + Send + 's,
    {
        self.0.spawn(move |s| body(unsafe { &*(s as *const Scope<'s> as *const ScopeFifo<'s>) }))
    }
}
pub fn scope_fifo<'s, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'s>) -> R + Send,
    R: Send,
{
    home().in_worker(|w, _| {
        let s = ScopeFifo(Scope::new(w.reg.clone()));
        s.0.complete(|| op(&s))
    })
}
pub fn in_place_scope_fifo<'s, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'s>) -> R,
{
    let s = ScopeFifo(Scope::new(home()));
    s.0.complete(|| op(&s))
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    let r = home();
    let j = r.job(move |_| {
        if catch_unwind(AssertUnwindSafe(f)).is_err() {
            rt::note_panic("spawned job panicked (aborts the process)".into());
        }
    });
    r.inject_or_push(j);
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn(f)
}
pub fn current_num_threads() -> usize {
    home().deques.len()
}
pub fn current_thread_index() -> Option<usize> {
    worker().map(|w| w.index)
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    worker().map(|w| w.reg.deques[w.index].len.load(SeqCst) > 0)
}
pub fn max_num_threads() -> usize {
    0xffff
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    let w = worker()?;
    Some(match w.find_work() {
        Some(j) => {
            w.run(j);
            Yield::Executed
        }
        None => {
            rt::yield_now(&Meta::new());
            Yield::Idle
        }
    })
}
pub fn yield_local() -> Option<Yield> {
    let w = worker()?;
    Some(match w.take_local() {
        Some(j) => {
            w.run(j);
            Yield::Executed
        }
        None => Yield::Idle,
    })
}
pub struct BroadcastContext<'a>(PhantomData<&'a ()>);
pub fn broadcast<OP, R>(_: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    unimplemented!("not modelled")
}
pub fn spawn_broadcast<OP>(_: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    unimplemented!("not modelled")
}
#[derive(Debug)]
pub struct ThreadBuilder(());
#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default, Debug)]
pub struct ThreadPoolBuilder {
    n: usize,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        let n = if self.n == 0 { GLOBAL_THREADS.load(SeqCst) } else { self.n };
        Ok(ThreadPool { reg: Registry::start(n) })
    }
}
pub struct ThreadPool {
    reg: Arc<Registry>,
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPool")
    }
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        self.reg.in_worker(|_, _| op())
    }
    pub fn current_num_threads(&self) -> usize {
        self.reg.deques.len()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        worker().filter(|w| Arc::ptr_eq(&w.reg, &self.reg)).map(|w| w.index)
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'s, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'s>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn in_place_scope<'s, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'s>) -> R,
    {
        let s = Scope::new(self.reg.clone());
        s.complete(|| op(&s))
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        let j = self.reg.job(move |_| {
            if catch_unwind(AssertUnwindSafe(op)).is_err() {
                rt::note_panic("spawned job panicked (aborts the process)".into());
            }
        });
        self.reg.inject_or_push(j);
    }
}
impl Drop for ThreadPool {
    fn drop(&mut self) {
        rt::point(&self.reg.meta, "pool exit", Wait::No);
        self.reg.exit.store(true, SeqCst);
    }
}
