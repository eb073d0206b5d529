//! Controlled scheduler: exactly one managed thread runs at a time; at every synchronisation
//! operation the scheduler decides who runs next. One `explore` call walks all schedules depth first.
//!
//! States are identified by the hash of their happens-before history: every operation on an object
//! mixes the histories of the thread and the object. Two schedule prefixes with equal histories
//! differ only in the order of independent operations and reach the same state, so the second one
//! is not expanded again. No schedule is lost by this.
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.rotate_left(23) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    x.wrapping_mul(0x94D0_49BB_1331_11EB) ^ x
}

/// History of a synchronisation object within the current execution.
pub struct Meta(Mutex<(u64, u64)>);
impl Meta {
    pub const fn new() -> Meta {
        Meta(Mutex::new((0, 0)))
    }
}
impl Default for Meta {
    fn default() -> Self {
        Meta::new()
    }
}

type Cond = Box<dyn Fn() -> bool + Send>;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum S {
    Waiting,
    Running,
    Done,
}
struct Th {
    hash: u64,
    children: u64,
    s: S,
    cond: Option<Cond>,
    /// what the thread is about to do or waiting for
    what: &'static str,
    /// low priority until another thread has run
    yielded: bool,
    /// waits that may end by themselves (sleeps, timeouts) taken so far
    timeouts: u32,
    timed: bool,
    daemon: bool,
    idle: bool,
    go: bool,
}
pub struct Failure {
    pub kind: &'static str,
    pub msg: String,
}
struct St {
    exec: u64,
    th: Vec<Th>,
    cur: usize,
    row: u32,
    prefix: Vec<u32>,
    trail: Vec<(u32, u32)>,
    log: Vec<(usize, &'static str)>,
    preempted: u32,
    bound: u32,
    delays: bool,
    pruned: bool,
    steps: u64,
    shutdown: bool,
    sd: Arc<std::sync::atomic::AtomicBool>,
    over: bool,
    failure: Option<Failure>,
    panics: Vec<String>,
    visited: Arc<Mutex<HashMap<u64, u32>>>,
    slots: HashMap<&'static str, Arc<dyn std::any::Any + Send + Sync>>,
}
pub struct Rt {
    st: Mutex<St>,
    cv: Condvar,
}
thread_local! {
    static CUR: RefCell<Option<(Arc<Rt>, usize)>> = const { RefCell::new(None) };
}
static EXEC: AtomicU64 = AtomicU64::new(1);
/// Steps of one execution after which it counts as running forever.
const MAX_STEPS: u64 = 20_000;

pub fn current() -> Option<(Arc<Rt>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}
pub fn managed() -> bool {
    current().is_some()
}

fn lock(rt: &Rt) -> MutexGuard<'_, St> {
    rt.st.lock().unwrap_or_else(|e| e.into_inner())
}

impl St {
    /// Tell `n` alternatives apart; alternative 0 unless the prefix says otherwise.
    fn branch(&mut self, n: u32) -> u32 {
        if n <= 1 || self.shutdown {
            return 0;
        }
        let pos = self.trail.len();
        if pos < self.prefix.len() {
            let c = self.prefix[pos].min(n - 1);
            self.trail.push((c, n));
            return c;
        }
        if self.pruned {
            return 0;
        }
        // seen this state already?
        let mut k = 0;
        for (i, t) in self.th.iter().enumerate() {
            k = mix(k, mix(i as u64, t.hash ^ ((t.s == S::Done) as u64)));
            k = mix(k, (t.yielded as u64) << 1 | t.idle as u64);
        }
        if self.bound != u32::MAX {
            k = mix(k, self.cur as u64);
        }
        let left = if self.bound == u32::MAX { 0 } else { self.bound - self.preempted };
        {
            let mut v = self.visited.lock().unwrap();
            match v.get(&k) {
                Some(&b) if b >= left => self.pruned = true,
                _ => {
                    v.insert(k, left);
                }
            }
        }
        if self.pruned {
            return 0;
        }
        self.trail.push((0, n));
        0
    }
    fn fail(&mut self, kind: &'static str, msg: String) {
        if self.failure.is_none() {
            self.failure = Some(Failure { kind, msg });
        }
        self.over = true;
    }
    fn describe(&self) -> String {
        self.th.iter().enumerate().map(|(i, t)| format!("T{i}:{:?}:{}{}", t.s, t.what, if t.idle { ":idle" } else { "" })).collect::<Vec<_>>().join(" ")
    }
    /// Choose the thread that runs next. `None`: the execution is over.
    fn next(&mut self) -> Option<usize> {
        if self.over {
            return None;
        }
        self.steps += 1;
        if self.steps > MAX_STEPS {
            self.fail("livelock", format!("still running after {MAX_STEPS} steps: {}", self.describe()));
            return None;
        }
        let cur = self.cur;
        let mut en: Vec<usize> = (0..self.th.len())
            .filter(|&i| {
                let t = &self.th[i];
                t.s == S::Waiting && (t.timed || t.cond.as_ref().map_or(true, |c| c()))
            })
            .collect();
        // a thread that yields or sleeps repeatedly, or spins, lets the others run
        let low = |i: &usize| {
            let t = &self.th[*i];
            t.yielded || (t.timed && t.timeouts >= 2 && !t.cond.as_ref().map_or(false, |c| c())) || (*i == cur && self.row > 300)
        };
        if en.iter().any(|i| !low(i)) {
            en = en.into_iter().filter(|i| !low(i)).collect();
        }
        if en.is_empty() {
            let live: Vec<usize> = (0..self.th.len()).filter(|&i| self.th[i].s != S::Done).collect();
            if self.shutdown {
                if !live.is_empty() {
                    self.fail("internal", format!("threads do not shut down: {}", self.describe()));
                }
                self.over = true;
                return None;
            }
            if live.iter().all(|&i| self.th[i].daemon && self.th[i].idle) {
                // everything finished: let the idle pool threads go
                self.shutdown = true;
                self.sd.store(true, SeqCst);
                if live.is_empty() {
                    self.over = true;
                    return None;
                }
                return self.next();
            }
            let d = self.describe();
            let k = if self.th[0].s == S::Done { "leak" } else { "deadlock" };
            self.fail(k, d);
            return None;
        }
        // the running thread first, then the others
        if let Some(p) = en.iter().position(|&i| i == cur) {
            en.remove(p);
            if self.preempted >= self.bound && !self.delays {
                en.clear();
            }
            en.insert(0, cur);
        }
        if self.delays {
            // after the running thread, the others in turn; every thread passed over is a delay
            if en[0] != cur {
                let p = en.iter().position(|&i| i > cur).unwrap_or(0);
                en.rotate_left(p);
            }
            en.truncate((self.bound - self.preempted) as usize + 1);
        }
        let c = self.branch(en.len() as u32) as usize;
        let t = en[c];
        if self.delays {
            self.preempted += c as u32;
        }
        if t != cur {
            if en[0] == cur && !self.delays {
                self.preempted += 1;
            }
            for x in self.th.iter_mut() {
                x.yielded = false;
            }
            self.row = 0;
        }
        self.row += 1;
        self.cur = t;
        Some(t)
    }
}
fn dispatch(rt: &Rt, st: &mut St) {
    if let Some(t) = st.next() {
        let w = st.th[t].what;
        st.log.push((t, w));
        st.th[t].go = true;
    }
    rt.cv.notify_all();
}
/// Give up the processor until the scheduler picks this thread again.
fn pause(rt: &Rt, me: usize, mut st: MutexGuard<'_, St>) {
    dispatch(rt, &mut st);
    while !st.th[me].go {
        st = rt.cv.wait(st).unwrap_or_else(|e| e.into_inner());
    }
    st.th[me].go = false;
    st.th[me].s = S::Running;
    st.th[me].cond = None;
}
fn touch_in(st: &mut St, me: usize, meta: &Meta, what: &'static str) {
    let mut m = meta.0.lock().unwrap_or_else(|e| e.into_inner());
    if m.0 != st.exec {
        *m = (st.exec, 0x55);
    }
    let mut op = 0u64;
    for b in what.bytes() {
        op = op.wrapping_mul(131).wrapping_add(b as u64);
    }
    let h = mix(mix(st.th[me].hash, op), m.1);
    m.1 = h;
    st.th[me].hash = h;
}
/// Record an operation without a scheduling point before it.
pub fn touch(meta: &Meta, what: &'static str) {
    if let Some((rt, me)) = current() {
        touch_in(&mut lock(&rt), me, meta, what);
    }
}
pub enum Wait {
    No,
    Until(Cond),
    /// may also end by itself
    Timed(Cond),
}
/// A scheduling point before an operation on `meta`; returns when the thread may perform it.
pub fn point(meta: &Meta, what: &'static str, wait: Wait) {
    point_x(meta, what, wait, false, false)
}
pub fn point_idle(meta: &Meta, what: &'static str, cond: Cond) {
    point_x(meta, what, Wait::Until(cond), true, false)
}
pub fn yield_now(meta: &Meta) {
    point_x(meta, "yield", Wait::No, false, true)
}
fn point_x(meta: &Meta, what: &'static str, wait: Wait, idle: bool, yields: bool) {
    let Some((rt, me)) = current() else {
        if let Wait::Until(c) = wait {
            while !c() {
                std::thread::yield_now();
            }
        }
        return;
    };
    if std::thread::panicking() {
        // unwinding code runs to the end of the thread without switches
        touch(meta, what);
        return;
    }
    let mut st = lock(&rt);
    let t = &mut st.th[me];
    t.s = S::Waiting;
    t.what = what;
    t.idle = idle;
    t.timed = false;
    t.yielded = false;
    if yields {
        t.timeouts += 1;
        t.yielded = t.timeouts > 2;
    }
    match wait {
        Wait::No => t.cond = None,
        Wait::Until(c) => t.cond = Some(c),
        Wait::Timed(c) => {
            t.cond = Some(c);
            t.timed = true;
        }
    }
    let timed = t.timed;
    pause(&rt, me, st);
    let mut st = lock(&rt);
    st.th[me].idle = false;
    if timed {
        st.th[me].timeouts += 1;
    }
    touch_in(&mut st, me, meta, what);
}
/// History of the running thread, to return to after looking for something that was not there.
pub fn mark() -> u64 {
    current().map_or(0, |(rt, me)| lock(&rt).th[me].hash)
}
/// The thread has seen nothing since `mark` that makes a difference to it.
pub fn forget(mark: u64) {
    if let Some((rt, me)) = current() {
        if !std::thread::panicking() {
            lock(&rt).th[me].hash = mark;
        }
    }
}
/// A choice of the environment that is not a scheduling decision.
pub fn choose(n: usize) -> usize {
    match current() {
        None => 0,
        Some((rt, me)) => {
            let mut st = lock(&rt);
            let c = st.branch(n as u32);
            st.th[me].hash = mix(st.th[me].hash, c as u64 + 1);
            c as usize
        }
    }
}
pub fn shutting_down() -> bool {
    current().map_or(false, |(rt, _)| lock(&rt).shutdown)
}
/// Condition for idle pool threads: true once the execution is over.
pub fn shutdown_flag() -> impl Fn() -> bool + Send + 'static {
    // evaluated by the scheduler, which holds the lock: shutdown is passed through a side flag
    let f = slot("shutdown", || std::sync::atomic::AtomicBool::new(false));
    move || f.load(SeqCst)
}
/// A value that lives as long as the execution.
pub fn slot<T: std::any::Any + Send + Sync>(name: &'static str, mk: impl FnOnce() -> T) -> Arc<T> {
    let (rt, _) = current().expect("not in an execution");
    if let Some(x) = lock(&rt).slots.get(name) {
        return x.clone().downcast::<T>().unwrap();
    }
    let v: Arc<T> = Arc::new(mk());
    lock(&rt).slots.insert(name, v.clone());
    v
}
pub fn note_panic(m: String) {
    if let Some((rt, me)) = current() {
        lock(&rt).panics.push(format!("thread {me}: {m}"));
    }
}

fn add_thread(st: &mut St, hash: u64, daemon: bool) -> usize {
    st.th.push(Th { hash, children: 0, s: S::Waiting, cond: None, what: "start", yielded: false, timeouts: 0, timed: false, daemon, idle: false, go: false });
    st.th.len() - 1
}
fn body(rt: Arc<Rt>, me: usize, f: impl FnOnce()) {
    CUR.with(|c| *c.borrow_mut() = Some((rt.clone(), me)));
    {
        let mut st = lock(&rt);
        while !st.th[me].go {
            st = rt.cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
        st.th[me].go = false;
        st.th[me].s = S::Running;
    }
    f();
    CUR.with(|c| *c.borrow_mut() = None);
    let mut st = lock(&rt);
    st.th[me].s = S::Done;
    st.th[me].what = "done";
    st.th[me].hash = mix(st.th[me].hash, 0xD0E);
    dispatch(&rt, &mut st);
}
/// Register a new managed thread; the returned closure must run on a new OS thread.
pub fn new_thread<'a>(daemon: bool, f: impl FnOnce() + 'a) -> (usize, impl FnOnce() + 'a) {
    let (rt, me) = current().expect("not in an execution");
    let mut st = lock(&rt);
    let n = st.th[me].children;
    st.th[me].children += 1;
    let h = mix(st.th[me].hash, 0x7EAD + n);
    st.th[me].hash = mix(st.th[me].hash, 0x5FA0);
    let id = add_thread(&mut st, h, daemon);
    drop(st);
    (id, move || body(rt, id, f))
}
pub fn done(id: usize) -> impl Fn() -> bool + Send + 'static {
    // called with the scheduler's lock held: look the state up without locking
    let (rt, _) = current().expect("not in an execution");
    let f: Arc<Mutex<HashSet<usize>>> = finished(&rt);
    move || f.lock().unwrap().contains(&id)
}
fn finished(_: &Arc<Rt>) -> Arc<Mutex<HashSet<usize>>> {
    let s: Arc<FinishedSet> = slot("finished", || FinishedSet(Arc::new(Mutex::new(HashSet::new()))));
    s.0.clone()
}
struct FinishedSet(Arc<Mutex<HashSet<usize>>>);
pub fn mark_finished() {
    if let Some((rt, me)) = current() {
        finished(&rt).lock().unwrap().insert(me);
    }
}

/// Which schedules to explore.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bound {
    /// all of them
    None,
    /// those that interrupt a thread that could go on at most this often
    Preemptions(u32),
    /// those that depart from running threads in turn, each as long as it can go on, by at most this
    /// many delays (a delay passes over one thread at one decision)
    Delays(u32),
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: u64,
    pub states: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub capped: bool,
    pub max_threads: usize,
}
pub struct Violation {
    pub kind: &'static str,
    pub msg: String,
    pub schedule: Vec<u32>,
    pub log: Vec<(usize, &'static str)>,
}
pub struct Exec {
    pub result: Option<String>,
    pub failure: Option<Failure>,
    pub panics: Vec<String>,
    pub trail: Vec<(u32, u32)>,
    pub log: Vec<(usize, &'static str)>,
    pub steps: u64,
    pub threads: usize,
}
/// Run `f` once under the schedule given by `prefix` (then the default schedule).
pub fn run_once(prefix: Vec<u32>, bound: Bound, visited: Arc<Mutex<HashMap<u64, u32>>>, f: Arc<dyn Fn() -> String + Send + Sync>) -> Exec {
    let exec = EXEC.fetch_add(1, SeqCst);
    let (bound, delays) = match bound {
        Bound::None => (u32::MAX, false),
        Bound::Preemptions(n) => (n, false),
        Bound::Delays(n) => (n, true),
    };
    let sd = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let rt = Arc::new(Rt {
        st: Mutex::new(St { exec, th: vec![], cur: 0, row: 0, prefix, trail: vec![], log: vec![], preempted: 0, bound, delays, pruned: false, steps: 0, shutdown: false, sd: sd.clone(), over: false, failure: None, panics: vec![], visited, slots: HashMap::new() }),
        cv: Condvar::new(),
    });
    let res = Arc::new(Mutex::new(None));
    {
        let mut st = lock(&rt);
        st.slots.insert("shutdown", sd.clone());
        st.slots.insert("finished", Arc::new(FinishedSet(Arc::new(Mutex::new(HashSet::new())))));
        add_thread(&mut st, 1, false);
    }
    let (rt2, res2) = (rt.clone(), res.clone());
    let h = std::thread::Builder::new()
        .spawn(move || {
            body(rt2, 0, move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
                *res2.lock().unwrap() = Some(r.unwrap_or_else(|_| "PANIC".into()));
                mark_finished();
            })
        })
        .expect("spawn");
    {
        let mut st = lock(&rt);
        dispatch(&rt, &mut st);
        while !st.over {
            st = rt.cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }
    let mut st = lock(&rt);
    let failure = st.failure.take();
    let x = Exec { result: None, failure, panics: std::mem::take(&mut st.panics), trail: std::mem::take(&mut st.trail), log: std::mem::take(&mut st.log), steps: st.steps, threads: st.th.len() };
    drop(st);
    let mut x = x;
    if x.failure.is_none() {
        let _ = h.join();
    }
    x.result = res.lock().unwrap().take();
    lock(&rt).slots.clear();
    x
}
/// Explore every schedule of `f`; `ok` judges each execution's result.
pub fn explore(bound: Bound, cap: u64, secs: u64, f: Arc<dyn Fn() -> String + Send + Sync>, ok: impl Fn(&str, &[String]) -> Result<(), String>) -> (Stats, Option<Violation>) {
    let visited = Arc::new(Mutex::new(HashMap::new()));
    let t0 = std::time::Instant::now();
    let mut s = Stats::default();
    let mut prefix: Vec<u32> = vec![];
    loop {
        let x = run_once(prefix.clone(), bound, visited.clone(), f.clone());
        s.executions += 1;
        s.steps += x.steps;
        s.max_steps = s.max_steps.max(x.steps);
        s.max_threads = s.max_threads.max(x.threads);
        s.states = visited.lock().unwrap().len() as u64;
        let bad = match (&x.failure, &x.result) {
            (Some(f), _) => Some((f.kind, f.msg.clone())),
            (None, None) => Some(("internal", "no result".into())),
            (None, Some(r)) => ok(r, &x.panics).err().map(|m| ("result", m)),
        };
        if let Some((kind, msg)) = bad {
            return (s, Some(Violation { kind, msg, schedule: x.trail.iter().map(|t| t.0).collect(), log: x.log }));
        }
        if s.executions >= cap || t0.elapsed().as_secs() >= secs {
            s.capped = true;
            return (s, None);
        }
        let mut t = x.trail;
        while let Some(&(c, n)) = t.last() {
            if c + 1 < n {
                break;
            }
            t.pop();
        }
        match t.pop() {
            None => return (s, None),
            Some((c, _)) => {
                prefix = t.iter().map(|x| x.0).collect();
                prefix.push(c + 1);
            }
        }
    }
}
