use crate::exp::{self, V};
use crate::gen::bases::*;
use crate::jpeg::*;
use crate::refimg;
use mc_std::rt::Bound;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}
pub const BOUNDS: &str = "images of 129x2 to 136x20 pixels (threads are used above a width of 128), 1 to 4 components, \
one to three scans, sequential and progressive (finished, unfinished), scaled, truncated and corrupt; helper threads with \
channels: every schedule; rayon pools of 1 to 3 threads (4 in the thorough tier) entered from outside and from inside: \
every schedule, or those with at most 1 to 4 preemptions where a pool of 2 or 3 threads converts 17 lines or runs 3 or \
more block tasks; two decodes at once on two threads or as the halves of a join: at most 2 to 6 delays";
pub const ASSUMPTIONS: &[&str] = &[
    "memory is sequentially consistent: reorderings that only weaker orderings allow are not explored",
    "the thread pool is a model of rayon-core (deques, injector, latches) under the real rayon iterators",
    "scheduling points are the operations of std::thread and std::sync and the pool's queues and latches",
];

static LAST: Mutex<Option<String>> = Mutex::new(None);
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut g) = LAST.lock() {
            *g = Some(i.to_string().replace('\n', " "));
        }
    }));
}
pub fn last_panic() -> String {
    LAST.lock().ok().and_then(|g| g.clone()).unwrap_or_default()
}

/// Where the decode runs.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum At {
    /// on an ordinary thread; the global pool has this many threads
    Outside(usize),
    /// inside a pool of this many threads
    Inside(usize),
    /// two decodes (of this and the companion stream) on two threads, pool of this many
    Two(usize),
    /// two decodes as the halves of a join in a pool of this many threads
    Joined(usize),
}
#[derive(Clone)]
pub struct Stream {
    pub name: String,
    pub bytes: Vec<u8>,
    pub scale: Option<(u16, u16)>,
    pub twice: bool,
    /// image and scale factor for comparison with the reference renderer
    pub img: Option<(Img, usize)>,
}
#[derive(Clone)]
pub struct Model {
    pub s: Arc<Stream>,
    pub other: Option<Arc<Stream>>,
    pub v: V,
    pub at: At,
    pub bound: Bound,
}
impl Model {
    pub fn name(&self) -> String {
        format!("{:?} {:?} {}{}", self.v, self.at, self.s.name, self.other.as_ref().map(|o| format!(" with {}", o.name)).unwrap_or_default())
    }
    pub fn bound(&self, _: Tier) -> Bound {
        self.bound
    }
    pub fn cap(&self, t: Tier) -> u64 {
        std::env::var("MC_EXEC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if t == Tier::Quick { 200_000 } else { 5_000_000 })
    }
    /// After this long the exploration of one model stops (and is reported as incomplete).
    pub fn secs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 240 } else { 1500 }
    }
    /// The outcome every schedule must have: that of the unscheduled build, whose pixels are
    /// compared with the reference renderer.
    pub fn expected(&self) -> Result<String, String> {
        let one = |s: &Stream| -> Result<String, String> {
            if let Some((img, f)) = &s.img {
                let got = exp::pixels(&s.bytes, s.scale).ok_or("the reference decode fails")?;
                let want = refimg::interleaved(img, &refimg::planes(img, &qts(), *f), *f, false);
                let want2 = refimg::interleaved(img, &refimg::planes(img, &qts(), *f), *f, true);
                if got.len() != want.len() {
                    return Err(format!("reference decode has {} bytes, expected {}", got.len(), want.len()));
                }
                let (d, i) = refimg::max_dev(&got, &want);
                let (d2, _) = refimg::max_dev(&got, &want2);
                if d.min(d2) > 4.0 {
                    return Err(format!("reference decode is off by {d} at byte {i}"));
                }
            }
            Ok(exp::run(V::Real, &s.bytes, s.scale, s.twice))
        };
        let one = |s: &Stream| {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(s)))
                .unwrap_or_else(|_| Err(format!("the decoder panics outside the scheduler: {}", last_panic())))
        };
        let mut w = one(&self.s)?;
        if let Some(o) = &self.other {
            w = format!("{w} | {}", one(o)?);
        }
        Ok(w)
    }
    pub fn body(&self) -> Arc<dyn Fn() -> String + Send + Sync> {
        let (s, o, v, at) = (self.s.clone(), self.other.clone(), self.v, self.at);
        let n = match at {
            At::Outside(n) | At::Inside(n) | At::Two(n) | At::Joined(n) => n,
        };
        rayon_core::GLOBAL_THREADS.store(n.max(1), SeqCst);
        let one = move |s: &Stream| exp::run(v, &s.bytes, s.scale, s.twice);
        Arc::new(move || match at {
            At::Outside(_) => one(&s),
            At::Inside(n) => {
                let p = rayon_core::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
                p.install(|| one(&s))
            }
            At::Two(_) => {
                let o = o.clone().unwrap();
                let h = mc_std::thread::spawn(move || one(&o));
                let a = one(&s);
                let b = h.join().unwrap_or_else(|_| "PANIC".into());
                format!("{a} | {b}")
            }
            At::Joined(n) => {
                let p = rayon_core::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
                let o = o.as_ref().unwrap();
                let (a, b) = p.install(|| rayon_core::join(|| one(&s), || one(o)));
                format!("{a} | {b}")
            }
        })
    }
}

fn st(name: &str, img: Img, scans: &[Scan]) -> Stream {
    Stream { name: name.into(), bytes: stream(&img, &qts(), scans), scale: None, twice: false, img: Some((img, 8)) }
}
fn cut(s: &Stream, keep: usize) -> Stream {
    Stream { name: format!("{}, cut at {keep}", s.name), bytes: s.bytes[..keep].to_vec(), img: None, ..s.clone() }
}
fn streams() -> Vec<Stream> {
    let g1 = dct(0, 129, 3, &[(1, 1)], 1);
    let g3 = dct(0, 136, 20, &[(1, 1)], 2);
    let c420 = dct(0, 130, 17, &[(2, 2), (1, 1), (1, 1)], 3);
    let c422 = dct(0, 129, 3, &[(2, 1), (1, 1), (1, 1)], 4);
    let k4 = dct(0, 129, 2, &[(1, 1); 4], 5);
    let p3 = dct(2, 129, 2, &[(1, 1), (1, 1), (1, 1)], 6);
    let p1 = dct(2, 129, 17, &[(1, 1)], 7);
    let mut v = vec![
        st("gray, 1 row", g1, &[Scan::seq(&[0])]),
        st("gray, 3 rows", g3, &[Scan::seq(&[0])]),
        st("4:2:2, 1 row", c422.clone(), &[Scan::seq(&[0, 1, 2])]),
        st("4:2:0, 2 rows", c420.clone(), &[Scan::seq(&[0, 1, 2])]),
        st("4:2:0, 2 rows, separate scans", c420.clone(), &[Scan::seq(&[1]), Scan::seq(&[0]), Scan::seq(&[2])]),
        st("4:2:2, two scans", c422.clone(), &[Scan::seq(&[0]), Scan::seq(&[1, 2])]),
        st("CMYK, 1 row", k4, &[Scan::seq(&[0, 1, 2, 3])]),
        st("progressive, DC only", p3.clone(), &[Scan::prog(&[0, 1, 2], 0, 0, 0, 0)]),
        st("progressive gray, 3 rows", p1.clone(), &[Scan::prog(&[0], 0, 0, 0, 0), Scan::prog(&[0], 1, 63, 0, 0)]),
        st("progressive gray unfinished, 3 rows", p1, &[Scan::prog(&[0], 0, 0, 0, 0), Scan::prog(&[0], 1, 9, 0, 0)]),
        st("progressive, one component finished", p3.clone(), &[Scan::prog(&[0, 1, 2], 0, 0, 0, 0), Scan::prog(&[1], 1, 63, 0, 0)]),
    ];
    // images that were cut in the scripts above are not what the reference renders
    for s in v.iter_mut().filter(|s| s.name.contains("DC only") || s.name.contains("unfinished") || s.name.contains("one component finished")) {
        s.img = None;
    }
    // scaled: 258 wide at one half
    let big = dct(0, 1032, 17, &[(2, 2), (1, 1), (1, 1)], 9);
    let mut s = st("4:2:0 at an eighth, 2 rows", big.clone(), &[Scan::seq(&[0, 1, 2])]);
    s.scale = Some((129, 3));
    s.img = Some((big.clone(), 1));
    v.push(s);
    let mut s = st("4:2:0 at an eighth, 2 rows, separate scans", big.clone(), &[Scan::seq(&[1]), Scan::seq(&[0]), Scan::seq(&[2])]);
    s.scale = Some((129, 3));
    s.img = Some((big, 1));
    v.push(s);
    let big = dct(0, 258, 4, &[(2, 1), (1, 1), (1, 1)], 8);
    let mut s = st("4:2:2 at half size", big.clone(), &[Scan::seq(&[0, 1, 2])]);
    s.scale = Some((129, 2));
    s.img = Some((big, 4));
    v.push(s);
    // a component coded twice, a component missing, decoding twice
    let mut s = st("a component coded twice", c422.clone(), &[Scan::seq(&[0]), Scan::seq(&[0]), Scan::seq(&[1, 2])]);
    s.img = None;
    v.push(s);
    let mut s = st("a component missing", c422.clone(), &[Scan::seq(&[2]), Scan::seq(&[0])]);
    s.img = None;
    v.push(s);
    let mut s = st("4:2:2, decoded twice", c422.clone(), &[Scan::seq(&[0, 1, 2])]);
    s.twice = true;
    v.push(s);
    // errors in the middle of scans
    let full = st("4:2:0, 2 rows", c420, &[Scan::seq(&[0, 1, 2])]);
    let n = full.bytes.len();
    let data = (0..n).rfind(|&i| full.bytes[i..].starts_with(&[0xFF, 0xDA])).unwrap() + 14;
    v.push(cut(&full, data));
    v.push(cut(&full, data + (n - data) / 2));
    v.push(cut(&full, n - 4));
    v.push(cut(&full, n - 2));
    let sep = st("4:2:2, separate scans", c422, &[Scan::seq(&[0]), Scan::seq(&[1]), Scan::seq(&[2])]);
    let n = sep.bytes.len();
    v.push(cut(&sep, n - 8));
    let last = (0..n).rfind(|&i| sep.bytes[i..].starts_with(&[0xFF, 0xDA])).unwrap();
    v.push(cut(&sep, last));
    v.push(cut(&sep, last + 5));
    let mut bad = sep.clone();
    bad.name = "4:2:2, separate scans, bad code".into();
    bad.img = None;
    bad.bytes[last + 10..last + 14].copy_from_slice(&[0xFE; 4]);
    v.push(bad);
    v
}
pub fn models(tier: Tier) -> Vec<Model> {
    let th = tier == Tier::Thorough;
    let ss: Vec<Arc<Stream>> = streams().into_iter().map(Arc::new).collect();
    let mut v = vec![];
    use Bound::{Delays, None as All, Preemptions as Pre};
    for s in &ss {
        v.push(Model { s: s.clone(), other: None, v: V::Mpsc, at: At::Outside(0), bound: All });
        let par_rows = s.name.starts_with("4:2:0, 2 rows") && s.img.is_some();
        let tasks = s.name.contains("DC only") || s.name.contains("unfinished") || s.name.contains("one component finished");
        for n in [1, 2, 3] {
            // all schedules, except where there are too many
            let bound = match n {
                1 => All,
                2 if par_rows => Pre(if th { 4 } else { 2 }),
                3 if par_rows => Pre(if th { 3 } else { 1 }),
                3 if tasks => if th { All } else { Pre(2) },
                _ => All,
            };
            v.push(Model { s: s.clone(), other: None, v: V::Rayon, at: At::Outside(n), bound });
            v.push(Model { s: s.clone(), other: None, v: V::Rayon, at: At::Inside(n), bound });
            if n == 3 && th && !par_rows && !tasks {
                v.push(Model { s: s.clone(), other: None, v: V::Rayon, at: At::Outside(4), bound: All });
                v.push(Model { s: s.clone(), other: None, v: V::Rayon, at: At::Inside(4), bound: All });
            }
        }
    }
    // two decodes at once
    let find = |n: &str| ss.iter().find(|s| s.name == n).unwrap().clone();
    let small = ["CMYK, 1 row", "4:2:2, two scans", "progressive, one component finished", "4:2:2, separate scans, bad code"];
    for (i, a) in small.iter().enumerate() {
        for b in &small[i..] {
            let (s, other) = (find(a), Some(find(b)));
            let m = |v, at, bound| Model { s: s.clone(), other: other.clone(), v, at, bound };
            v.push(m(V::Mpsc, At::Two(0), Delays(if th { 3 } else { 2 })));
            v.push(m(V::Rayon, At::Two(1), Delays(if th { 6 } else { 3 })));
            v.push(m(V::Rayon, At::Two(2), Delays(if th { 6 } else { 3 })));
            v.push(m(V::Rayon, At::Joined(1), All));
            v.push(m(V::Rayon, At::Joined(2), Delays(if th { 6 } else { 4 })));
            v.push(m(V::Rayon, At::Joined(3), Delays(if th { 6 } else { 3 })));
        }
    }
    // the long ones first
    v.sort_by_key(|m| {
        let n = match m.at {
            At::Outside(n) | At::Inside(n) | At::Joined(n) => n,
            At::Two(0) => 9,
            At::Two(n) => n + 1,
        };
        std::cmp::Reverse((n, m.other.is_some() || m.s.name.contains("progressive")))
    });
    v
}
