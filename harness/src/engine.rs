//! Exhaustive explorer: walks the complete choice tree of a model, depth first, on several threads.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    /// Signature used to match entries of the known-findings file.
    pub sig: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), sig: sig.into() })
}

pub struct Ctx {
    prefix: Vec<(u32, u32)>,
    pos: usize,
    trail: Vec<(u32, u32)>,
    pub budget: u32,
    used: u32,
    pub tier: Tier,
    states: Vec<u64>,
    traces: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub outcomes: HashSet<u64>,
    pub note: String,
    pub want_note: bool,
    stream: Vec<u8>,
}
impl Ctx {
    fn new(prefix: Vec<(u32, u32)>, budget: u32, tier: Tier) -> Ctx {
        Ctx {
            prefix,
            pos: 0,
            trail: vec![],
            budget,
            used: 0,
            tier,
            states: vec![],
            traces: 0,
            counters: BTreeMap::new(),
            outcomes: HashSet::new(),
            note: String::new(),
            want_note: false,
            stream: vec![],
        }
    }
    /// A branch of the model: every value 0..n is explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        if n == 1 {
            return 0;
        }
        let c = if self.pos < self.prefix.len() {
            let (c, a) = self.prefix[self.pos];
            if a as usize != n {
                panic!("MC-DIVERGENCE at choice {}: arity {} recorded {}", self.pos, n, a);
            }
            c
        } else {
            0
        };
        self.pos += 1;
        self.trail.push((c, n as u32));
        c as usize
    }
    /// A departure from the default (0) environment answer: costs 1 unit of the deviation budget.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.used >= self.budget || n <= 1 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.used += 1;
        }
        c
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.choose(xs.len())].clone()
    }
    /// Inclusive integer range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Record a distinct model state.
    pub fn state<H: Hash>(&mut self, h: H) {
        let mut s = DefaultHasher::new();
        h.hash(&mut s);
        self.states.push(s.finish());
    }
    /// One execution of the real code compared with the model.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn outcome<H: Hash>(&mut self, h: H) {
        let mut s = DefaultHasher::new();
        h.hash(&mut s);
        self.outcomes.insert(s.finish());
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    /// The stream under test; stored in the replay file when the case fails.
    pub fn stream(&mut self, b: &[u8]) {
        self.stream.clear();
        self.stream.extend_from_slice(b);
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_note {
            self.note = f();
        }
    }
}

pub struct Model {
    pub name: String,
    pub budget: u32,
    pub f: Box<dyn Fn(&mut Ctx) -> R + Sync + Send>,
}
pub fn model(name: &str, f: impl Fn(&mut Ctx) -> R + Sync + Send + 'static) -> Model {
    Model { name: name.into(), budget: u32::MAX, f: Box::new(f) }
}
pub fn model_b(name: &str, budget: u32, f: impl Fn(&mut Ctx) -> R + Sync + Send + 'static) -> Model {
    Model { name: name.into(), budget, f: Box::new(f) }
}

#[derive(Clone)]
struct Item {
    trail: Arc<Vec<(u32, u32)>>,
    depth: usize,
    lo: u32,
    hi: u32,
}

#[derive(Clone)]
pub struct Violation {
    pub model: usize,
    pub model_name: String,
    pub choices: Vec<(u32, u32)>,
    pub fail: Fail,
    pub stream: Vec<u8>,
    pub reproduced: bool,
}

#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub executions: u64,
    pub outcomes: u64,
    pub max_depth: usize,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub per_model: Vec<(String, u64, bool)>,
    pub capped: bool,
    pub known: BTreeMap<String, u64>,
    pub violation: Option<Violation>,
}

// ---- in-flight slots, shared with the supervising parent process -------------------------------
pub const SLOTS: usize = 16;
const SLOT_WORDS: usize = 8192;
pub struct Shared(*mut u32);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
impl Shared {
    pub fn new() -> Shared {
        let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * SLOT_WORDS * 4, 3, 0x21, -1, 0) };
        assert!(p as isize != -1);
        Shared(p as *mut u32)
    }
    fn set(&self, slot: usize, model: usize, t: &[(u32, u32)]) {
        unsafe {
            let p = self.0.add(slot * SLOT_WORDS);
            let n = t.len().min(SLOT_WORDS / 2 - 4);
            p.add(0).write_volatile(0);
            p.add(1).write_volatile(model as u32);
            for (i, (c, a)) in t[..n].iter().enumerate() {
                p.add(2 + 2 * i).write_volatile(*c);
                p.add(3 + 2 * i).write_volatile(*a);
            }
            p.add(0).write_volatile(n as u32 + 1);
        }
    }
    fn clear(&self, slot: usize) {
        unsafe { self.0.add(slot * SLOT_WORDS).write_volatile(0) }
    }
    pub fn get(&self, slot: usize) -> Option<(usize, Vec<(u32, u32)>)> {
        unsafe {
            let p = self.0.add(slot * SLOT_WORDS);
            let n = p.read_volatile() as usize;
            if n == 0 {
                return None;
            }
            let m = p.add(1).read_volatile() as usize;
            Some((m, (0..n - 1).map(|i| (p.add(2 + 2 * i).read_volatile(), p.add(3 + 2 * i).read_volatile())).collect()))
        }
    }
}

pub struct Env<'a> {
    pub tier: Tier,
    pub threads: usize,
    pub cap: Duration,
    pub hang_limit: Duration,
    pub shared: &'a Shared,
    /// Signatures of known findings for this property.
    pub known: &'a [String],
}

/// Runs one case. Returns Err(msg) for an engine error (harness bug), Ok(result) otherwise.
fn run_case(m: &Model, ctx: &mut Ctx) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (m.f)(ctx))) {
        Ok(r) => Ok(r),
        Err(_) => Err(format!("harness panic in model {}: {} trail {:?}", m.name, crate::sut::take_panic(), ctx.trail)),
    }
}

pub fn replay(m: &Model, choices: &[(u32, u32)], tier: Tier) -> (Result<R, String>, Vec<u8>) {
    let mut ctx = Ctx::new(choices.to_vec(), m.budget, tier);
    ctx.want_note = true;
    let r = run_case(m, &mut ctx);
    (r, ctx.stream)
}

pub fn explore(models: &[Model], env: &Env) -> Result<Stats, String> {
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut all_states: HashSet<u64> = HashSet::new();
    let mut all_outcomes: HashSet<u64> = HashSet::new();
    for (mi, m) in models.iter().enumerate() {
        let tm = Instant::now();
        let queue: Mutex<Vec<Item>> =
            Mutex::new(vec![Item { trail: Arc::new(vec![]), depth: usize::MAX, lo: 0, hi: 1 }]);
        let idle = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let starts: Vec<AtomicU64> = (0..env.threads).map(|_| AtomicU64::new(0)).collect();
        let execs = AtomicU64::new(0);
        let viol: Mutex<Option<Violation>> = Mutex::new(None);
        let err: Mutex<Option<String>> = Mutex::new(None);
        let results: Mutex<Vec<(HashSet<u64>, HashSet<u64>, u64, u64, usize, BTreeMap<&'static str, u64>, Vec<(u64, String)>, BTreeMap<String, u64>)>> =
            Mutex::new(vec![]);
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            // watchdog
            s.spawn(|| {
                while !done.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = t0.elapsed().as_millis() as u64 + 1;
                    for (slot, st) in starts.iter().enumerate() {
                        let b = st.load(SeqCst);
                        if b != 0 && now.saturating_sub(b) > env.hang_limit.as_millis() as u64 {
                            if let Some((_, choices)) = env.shared.get(slot) {
                                crate::report_hang(mi, &m.name, &choices, env.hang_limit);
                            }
                        }
                    }
                    if t0.elapsed() > env.cap {
                        capped.store(true, SeqCst);
                        stop.store(true, SeqCst);
                    }
                }
            });
            let mut hs = vec![];
            for w in 0..env.threads {
                let (queue, idle, stop, starts, execs, viol, err, results) =
                    (&queue, &idle, &stop, &starts, &execs, &viol, &err, &results);
                let body = move || {
                    let mut local: Vec<Item> = vec![];
                    let mut states = HashSet::new();
                    let mut outcomes = HashSet::new();
                    let (mut traces, mut transitions, mut maxd) = (0u64, 0u64, 0usize);
                    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut samples: Vec<(u64, String)> = vec![];
                    let mut known: BTreeMap<String, u64> = BTreeMap::new();
                    let mut am_idle = false;
                    loop {
                        if stop.load(Relaxed) {
                            break;
                        }
                        // share work when others are idle
                        if idle.load(Relaxed) > 0 && !local.is_empty() {
                            let mut q = queue.lock().unwrap();
                            if q.len() < 2 * env.threads {
                                if local.len() > 1 {
                                    let k = local.len() / 2;
                                    q.extend(local.drain(..k));
                                } else if local[0].hi - local[0].lo > 1 {
                                    let mid = (local[0].lo + local[0].hi).div_ceil(2);
                                    let mut b = local[0].clone();
                                    b.lo = mid;
                                    local[0].hi = mid;
                                    q.push(b);
                                }
                            }
                        }
                        let it = match local.pop() {
                            Some(it) => it,
                            None => {
                                let mut q = queue.lock().unwrap();
                                match q.pop() {
                                    Some(mut it) => {
                                        if am_idle {
                                            am_idle = false;
                                            idle.fetch_sub(1, SeqCst);
                                        }
                                        if it.hi - it.lo > 1 {
                                            let mid = (it.lo + it.hi).div_ceil(2);
                                            let mut b = it.clone();
                                            b.lo = mid;
                                            it.hi = mid;
                                            q.push(b);
                                        }
                                        it
                                    }
                                    None => {
                                        if !am_idle {
                                            am_idle = true;
                                            idle.fetch_add(1, SeqCst);
                                        }
                                        let all = idle.load(SeqCst) == env.threads;
                                        drop(q);
                                        if all {
                                            break;
                                        }
                                        std::thread::yield_now();
                                        std::thread::sleep(Duration::from_micros(50));
                                        continue;
                                    }
                                }
                            }
                        };
                        let prefix: Vec<(u32, u32)> = if it.depth == usize::MAX {
                            vec![]
                        } else {
                            let mut p = it.trail[..it.depth].to_vec();
                            p.push((it.lo, it.trail[it.depth].1));
                            p
                        };
                        if it.hi - it.lo > 1 {
                            let mut b = it.clone();
                            b.lo += 1;
                            local.push(b);
                        }
                        let plen = prefix.len();
                        let n = execs.fetch_add(1, Relaxed);
                        let mut ctx = Ctx::new(prefix, m.budget, env.tier);
                        ctx.want_note = n < 2 || n.is_power_of_two();
                        env.shared.set(w, mi, &ctx.prefix);
                        starts[w].store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                        let r = run_case(m, &mut ctx);
                        starts[w].store(0, SeqCst);
                        env.shared.clear(w);
                        match r {
                            Err(e) => {
                                *err.lock().unwrap() = Some(e);
                                stop.store(true, SeqCst);
                                break;
                            }
                            Ok(Err(f)) if env.known.iter().any(|k| *k == f.sig) => {
                                *known.entry(f.sig.clone()).or_insert(0) += 1;
                            }
                            Ok(Err(f)) => {
                                let (again, _) = replay(m, &ctx.trail, env.tier);
                                let mut v = viol.lock().unwrap();
                                if v.is_none() {
                                    *v = Some(Violation {
                                        model: mi,
                                        model_name: m.name.clone(),
                                        choices: ctx.trail.clone(),
                                        fail: f,
                                        stream: std::mem::take(&mut ctx.stream),
                                        reproduced: matches!(again, Ok(Err(_))),
                                    });
                                }
                                stop.store(true, SeqCst);
                                break;
                            }
                            Ok(Ok(())) => {}
                        }
                        if ctx.pos < ctx.prefix.len() {
                            *err.lock().unwrap() = Some(format!("model {}: replay consumed {} of {} choices", m.name, ctx.pos, ctx.prefix.len()));
                            stop.store(true, SeqCst);
                            break;
                        }
                        traces += ctx.traces;
                        transitions += (ctx.trail.len() + 1 - plen) as u64;
                        maxd = maxd.max(ctx.trail.len());
                        states.extend(ctx.states.drain(..));
                        outcomes.extend(ctx.outcomes.drain());
                        for (k, v) in &ctx.counters {
                            *counters.entry(k).or_insert(0) += v;
                        }
                        if ctx.want_note && !ctx.note.is_empty() {
                            samples.push((n, std::mem::take(&mut ctx.note)));
                        }
                        let trail = Arc::new(std::mem::take(&mut ctx.trail));
                        for i in plen..trail.len() {
                            if trail[i].1 > 1 {
                                local.push(Item { trail: trail.clone(), depth: i, lo: 1, hi: trail[i].1 });
                            }
                        }
                    }
                    results.lock().unwrap().push((states, outcomes, traces, transitions, maxd, counters, samples, known));
                };
                hs.push(s.spawn(move || {
                    // Inside a one-thread pool rayon operations of the code under test run inline.
                    rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap().install(body)
                }));
            }
            for h in hs {
                let _ = h.join();
            }
            done.store(true, SeqCst);
        });
        if let Some(e) = err.into_inner().unwrap() {
            return Err(e);
        }
        let mut samples = vec![];
        for (s, o, tr, tn, d, c, smp, kn) in results.into_inner().unwrap() {
            for x in s {
                let mut h = DefaultHasher::new();
                (mi, x).hash(&mut h);
                all_states.insert(h.finish());
            }
            all_outcomes.extend(o);
            st.traces += tr;
            st.transitions += tn;
            st.max_depth = st.max_depth.max(d);
            for (k, v) in c {
                *st.counters.entry(k).or_insert(0) += v;
            }
            for (k, v) in kn {
                *st.known.entry(k).or_insert(0) += v;
            }
            samples.extend(smp);
        }
        samples.sort();
        for (_, s) in samples.into_iter().rev().take(3) {
            st.samples.push(format!("{}: {}", m.name, s));
        }
        let ex = execs.load(SeqCst);
        st.executions += ex;
        let cap = capped.load(SeqCst);
        st.capped |= cap;
        st.per_model.push((m.name.clone(), ex, !cap));
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!("model {:<28} {:>9} executions  {:.2}s{}", m.name, ex, tm.elapsed().as_secs_f64(), if cap { " CAPPED" } else { "" });
        }
        if let Some(v) = viol.into_inner().unwrap() {
            st.violation = Some(v);
            break;
        }
    }
    st.states = all_states.len() as u64;
    st.outcomes = all_outcomes.len() as u64;
    Ok(st)
}
