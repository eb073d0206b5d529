use super::bases::*;
use super::*;
use crate::iso::in_child;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Read;
use std::sync::{Arc, Condvar, Mutex};

/// One decode: a stream and options.
#[derive(Clone)]
struct Item {
    name: String,
    bytes: Vec<u8>,
    o: Opts,
}
fn item(name: impl Into<String>, bytes: &[u8], o: Opts) -> Item {
    Item { name: name.into(), bytes: bytes.to_vec(), o }
}
fn items() -> Vec<Item> {
    let mut v = vec![];
    for b in all_bases() {
        v.push(item(b.name, &b.bytes, Opts::default()));
        let n = b.bytes.len();
        match b.name {
            "baseline 4:2:0 21x18 interleaved, JFIF, restarts" | "wide 4:2:0 150x33" | "wide progressive 144x18" => {
                v.push(item(format!("{} scaled", b.name), &b.bytes, Opts::scale((b.img.w as u16).div_ceil(2), (b.img.h as u16).div_ceil(2))));
                v.push(item(format!("{} scaled to 1/8", b.name), &b.bytes, Opts::scale(1, 1)));
                v.push(item(format!("{} untransformed", b.name), &b.bytes, Opts::ct(Ct::None)));
                v.push(item(format!("{} limited", b.name), &b.bytes, Opts { limit: Some(50), ..Default::default() }));
                v.push(item(format!("{} cut early", b.name), &b.bytes[..b.sof_end + 4], Opts::default()));
                v.push(item(format!("{} cut in the scan", b.name), &b.bytes[..n - 9], Opts::default()));
            }
            "lossless gray 16 bit 5x4 predictor 7" | "baseline CMYK 12x9" | "wide separate scans 130x20" => v.push(item(format!("{} cut", b.name), &b.bytes[..n - 4], Opts::default())),
            "AVI1 without tables 17x9" => {
                // the same without the mark fails
                let segs: Vec<Vec<u8>> = b.segs.iter().filter(|s| s[1] != 0xE0).cloned().collect();
                v.push(item("no tables, no mark", &segs.concat(), Opts::default()));
            }
            "baseline gray 13x10" => {
                v.push(item("no frame", &b.bytes[..2], Opts::default()));
                v.push(item("not a JPEG", &[1, 2, 3], Opts::default()));
                let mut m = b.bytes.clone();
                let k = b.first_scan_data();
                m[k..k + 6].fill(0xFE);
                v.push(item("bad entropy data", &m, Opts::default()));
                // without quantisation tables
                let segs: Vec<Vec<u8>> = b.segs.iter().filter(|s| s[1] != 0xDB).cloned().collect();
                v.push(item("no quantisation table", &segs.concat(), Opts::default()));
            }
            _ => {}
        }
    }
    v
}
fn show(o: &Out) -> String {
    let mut h = DefaultHasher::new();
    o.hash(&mut h);
    format!("{:016x} {}", h.finish(), o.brief())
}
fn run(v: V, it: &Item) -> String {
    show(&decode(v, &it.bytes, &it.o))
}
fn child(f: impl FnOnce() -> String) -> Result<String, Fail> {
    in_child(f).map_err(|e| Fail { msg: e, sig: "died".into() })
}

/// Only one of the two threads runs at a time; it hands over at the reads named in `at`.
struct Baton {
    turn: Mutex<(usize, [bool; 2])>,
    cv: Condvar,
}
impl Baton {
    fn wait(&self, me: usize) {
        let mut g = self.turn.lock().unwrap();
        while g.0 != me && !g.1[1 - me] {
            g = self.cv.wait(g).unwrap();
        }
        g.0 = me;
    }
    fn give(&self, me: usize) {
        let mut g = self.turn.lock().unwrap();
        g.0 = 1 - me;
        self.cv.notify_all();
        while g.0 != me && !g.1[1 - me] {
            g = self.cv.wait(g).unwrap();
        }
        g.0 = me;
    }
    fn done(&self, me: usize) {
        let mut g = self.turn.lock().unwrap();
        g.1[me] = true;
        g.0 = 1 - me;
        self.cv.notify_all();
    }
}
/// Calls `f` before the reads whose numbers are in `at`.
struct Hook<'a, F: FnMut()> {
    r: SliceReader<'a>,
    n: usize,
    at: Vec<usize>,
    f: F,
}
impl<F: FnMut()> Read for Hook<'_, F> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.at.contains(&self.n) {
            (self.f)();
        }
        self.n += 1;
        self.r.read(buf)
    }
}
/// Two threads, the first starts, each hands over at the given reads.
fn two_threads(v: V, a: &Item, b: &Item, ata: &[usize], atb: &[usize]) -> String {
    let bt = Arc::new(Baton { turn: Mutex::new((0, [false; 2])), cv: Condvar::new() });
    let r = std::thread::scope(|s| {
        let hs: Vec<_> = [(a, ata), (b, atb)]
            .into_iter()
            .enumerate()
            .map(|(me, (it, at))| {
                let bt = bt.clone();
                s.spawn(move || {
                    bt.wait(me);
                    let mut h = Hook { r: SliceReader::new(&it.bytes), n: 0, at: at.to_vec(), f: || bt.give(me) };
                    let mut o = decode_reader(v, &mut h, &it.o);
                    o.consumed = h.r.pos;
                    bt.done(me);
                    show(&o)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect::<Vec<_>>()
    });
    r.join("\n")
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    // the decodes of this check run in children: this process never decodes anything itself
    std::env::set_var("RAYON_NUM_THREADS", "2");
    let its = Arc::new(items());
    // what each item gives in a process of its own
    let solo: Arc<Vec<Vec<String>>> = Arc::new(its.iter().map(|it| ALLV.iter().map(|&v| in_child(|| run(v, it)).unwrap_or_else(|e| format!("ERROR {e}"))).collect()).collect());
    // number of reads of each item
    let reads: Arc<Vec<usize>> = Arc::new(
        its.iter()
            .map(|it| {
                in_child(|| {
                    let mut h = Hook { r: SliceReader::new(&it.bytes), n: 0, at: vec![], f: || () };
                    decode_reader(V::Mpsc, &mut h, &it.o);
                    h.n.to_string()
                })
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1)
            })
            .collect(),
    );
    let sel = |names: &[&str]| -> Arc<Vec<usize>> { Arc::new(names.iter().map(|n| its.iter().position(|i| i.name.starts_with(n)).unwrap_or_else(|| panic!("{n}"))).collect()) };
    let mut models = vec![];
    models.push(model("each decode alone and repeated", {
        let (its, solo) = (its.clone(), solo.clone());
        move |ctx| {
            let i = ctx.choose(its.len());
            let vi = ctx.choose(3);
            ctx.state((i, vi));
            ctx.outcome(&solo[i][vi]);
            ctx.stream(&its[i].bytes);
            ensure!(!solo[i][vi].contains("PANIC") && !solo[i][vi].starts_with("ERROR"), "panic", "{} {:?}: {}", its[i].name, ALLV[vi], solo[i][vi]);
            let r = child(|| (0..4).map(|_| run(ALLV[vi], &its[i])).collect::<Vec<_>>().join("\n"))?;
            for (k, l) in r.lines().enumerate() {
                ctx.trace();
                ensure!(l == solo[i][vi], "repeat", "{:?} {} decode {k} in one process: {l}, first time {}", ALLV[vi], its[i].name, solo[i][vi]);
            }
            Ok(())
        }
    }));
    let seq = |models: &mut Vec<Model>, name: &str, set: Arc<Vec<usize>>, n: usize, builds: &'static [usize]| {
        let (its, solo) = (its.clone(), solo.clone());
        models.push(model(name, move |ctx| {
            let vi = ctx.pick(builds);
            let h: Vec<usize> = (0..n).map(|_| ctx.pick(&set)).collect();
            ctx.state((vi, &h));
            ctx.describe(|| format!("{:?} {:?}", ALLV[vi], h.iter().map(|&i| &its[i].name).collect::<Vec<_>>()));
            let r = child(|| h.iter().map(|&i| run(ALLV[vi], &its[i])).collect::<Vec<_>>().join("\n"))?;
            let l: Vec<&str> = r.lines().collect();
            ensure!(l.len() == h.len(), "died", "{r}");
            for (k, &i) in h.iter().enumerate() {
                ctx.trace();
                ctx.outcome(l[k]);
                if l[k] != solo[i][vi] {
                    ctx.stream(&its[i].bytes);
                    return fail("sequence", format!("{:?} {} after {:?}: {}, alone {}", ALLV[vi], its[i].name, h[..k].iter().map(|&i| &its[i].name).collect::<Vec<_>>(), l[k], solo[i][vi]));
                }
            }
            Ok(())
        }));
    };
    let every = Arc::new((0..its.len()).collect::<Vec<_>>());
    let few = sel(&["baseline gray", "baseline 4:2:0 21x18 interleaved, JFIF, restarts", "baseline CMYK 12x9", "progressive gray", "lossless gray 16", "AVI1", "no tables, no mark", "bad entropy", "wide 4:2:0 150x33", "wide progressive 144x18 cut in", "wide separate scans 130x20", "wide 4:2:0 150x33 scaled"]);
    let six = sel(&["baseline gray", "progressive gray", "AVI1", "lossless gray 16", "wide 4:2:0 150x33", "wide progressive 144x18 cut in"]);
    seq(&mut models, "every ordered pair on one thread", every.clone(), 2, &[0, 1, 2]);
    seq(&mut models, "sequences of three", if th { every.clone() } else { few.clone() }, 3, &[0, 1]);
    seq(&mut models, "sequences of four", if th { few.clone() } else { six.clone() }, 4, &[1]);

    models.push(model("two decoders on one thread, calls interleaved", {
        let (its, solo) = (its.clone(), solo.clone());
        let set = if th { every.clone() } else { few.clone() };
        move |ctx| {
            let (a, b) = (ctx.pick(&set), ctx.pick(&set));
            let vi = ctx.pick(&[0usize, 1]);
            // ReadInfo, options, Decode, Meta of each, in every order
            let list = |i: usize| {
                let mut v = acts_for(&its[i].o);
                if its[i].o == Opts::default() {
                    v.insert(0, Act::ReadInfo);
                }
                v
            };
            let l = [list(a), list(b)];
            let mut k = [0, 0];
            let mut acts = vec![];
            while k[0] < l[0].len() || k[1] < l[1].len() {
                let s = if k[0] == l[0].len() {
                    1
                } else if k[1] == l[1].len() {
                    0
                } else {
                    ctx.choose(2)
                };
                acts.push((s == 1, l[s][k[s]].clone()));
                k[s] += 1;
            }
            ctx.state((a, b, vi, &acts));
            ctx.trace();
            ctx.describe(|| format!("{:?} {} | {} {acts:?}", ALLV[vi], its[a].name, its[b].name));
            let r = child(|| {
                let rs = pair_session(ALLV[vi], &mut SliceReader::new(&its[a].bytes), &mut SliceReader::new(&its[b].bytes), &acts);
                let one = |i: usize| session(ALLV[vi], &mut SliceReader::new(&its[i].bytes), &l[if i == a { 0 } else { 1 }]);
                // each alone, afterwards: the pairs model relates these to fresh processes
                let (x, y) = (one(a), one(b));
                let (mut i, mut j) = (x.iter(), y.iter());
                for (n, (r, (s, act))) in rs.iter().zip(&acts).enumerate() {
                    let want = if *s { j.next() } else { i.next() };
                    if Some(r) != want {
                        return format!("call {n} {act:?} of decoder {}: {}", *s as u8, if let (Res::Data(p), Some(Res::Data(q))) = (r, want) { format!("{:?} / alone {:?}", p.as_ref().map(|d| d.len()), q.as_ref().map(|d| d.len())) } else { format!("{r:?} / alone {want:?}") });
                    }
                }
                if rs.len() != acts.len() {
                    return format!("{:?}", rs.last());
                }
                "ok".into()
            })?;
            ensure!(r == "ok", "interleaved-calls", "{:?} {} | {} {acts:?}: {r}", ALLV[vi], its[a].name, its[b].name);
            let _ = &solo;
            Ok(())
        }
    }));

    // a reader that itself decodes another image
    let tiny = sel(&["baseline gray", "progressive, two scans", "lossless gray 16", "AVI1", "bad entropy", "no tables, no mark"]);
    models.push(model("a decode nested in a read of another, at every read", {
        let (its, solo, reads) = (its.clone(), solo.clone(), reads.clone());
        let outer = if th { every.clone() } else { few.clone() };
        let inner = if th { few.clone() } else { sel(&["baseline gray", "wide 4:2:0 150x33", "AVI1", "bad entropy"]) };
        move |ctx| {
            let (a, b) = (ctx.pick(&outer), ctx.pick(&inner));
            let vi = ctx.pick(&[0usize, 1]);
            let step = if ctx.thorough() || reads[a] < 300 { 1 } else { 4 };
            let i = step * ctx.choose(cdiv(reads[a], step));
            ctx.state((a, b, vi, i));
            ctx.trace();
            ctx.describe(|| format!("{:?} {} at read {i} of {}", ALLV[vi], its[b].name, its[a].name));
            let r = child(|| {
                let mut inner = String::new();
                let mut h = Hook { r: SliceReader::new(&its[a].bytes), n: 0, at: vec![i], f: || inner = run(ALLV[vi], &its[b]) };
                let mut o = decode_reader(ALLV[vi], &mut h, &its[a].o);
                o.consumed = h.r.pos;
                drop(h);
                format!("{}\n{inner}", show(&o))
            })?;
            ctx.outcome(&r);
            let want = format!("{}\n{}", solo[a][vi], solo[b][vi]);
            ensure!(r == want, "nested", "{:?} {} decoded inside read {i} of {}: {r:?}, alone {want:?}", ALLV[vi], its[b].name, its[a].name);
            Ok(())
        }
    }));
    let threads = |models: &mut Vec<Model>, name: &str, set: Arc<Vec<usize>>, two: bool, stride: usize| {
        let (its, solo, reads) = (its.clone(), solo.clone(), reads.clone());
        models.push(model(name, move |ctx| {
            let (a, b) = (ctx.pick(&set), ctx.pick(&set));
            let vi = ctx.pick(&[0usize, 1]);
            let i = stride * ctx.choose(cdiv(reads[a], stride));
            let atb = if two { vec![stride * ctx.choose(cdiv(reads[b], stride))] } else { vec![] };
            ctx.state((a, b, vi, i, &atb));
            ctx.trace();
            ctx.describe(|| format!("{:?} {} | {}: switch at read {i}, back at {atb:?}", ALLV[vi], its[a].name, its[b].name));
            let r = child(|| two_threads(ALLV[vi], &its[a], &its[b], &[i], &atb))?;
            let want = format!("{}\n{}", solo[a][vi], solo[b][vi]);
            ctx.outcome(&r);
            ensure!(r == want, "threads", "{:?} {} | {} on two threads, first switches at read {i}, second at {atb:?}: {r:?}, alone {want:?}", ALLV[vi], its[a].name, its[b].name);
            Ok(())
        }));
    };
    threads(&mut models, "two threads, one switch at every read", if th { few.clone() } else { tiny.clone() }, false, 1);
    threads(&mut models, "two threads, switch and switch back", tiny.clone(), true, if th { 3 } else { 24 });
    super::spec(
        "46 decodes (24 streams of all processes, narrow and wide, with options, failing variants) each run in its own process; all ordered pairs x 3 builds, all triples of 12 (thorough 46), all sequences of 4 of 6 (12); all interleavings of the API calls of two decoders; a decode nested in every read (every third or fourth for long streams) of another; two threads switching at every read, and at pairs of reads",
        &["concurrent decodes switch at reads of their streams; switches inside the decoder's own synchronisation are explored by C20"],
        models,
    )
}
