use super::bases::*;
use super::*;
use std::collections::BTreeSet;

type Cats = BTreeSet<String>;
const F: &str = "Format";
fn un(x: &str) -> String {
    format!("Unsupported({x})")
}
/// Eight tables (all slots) in which a zero bit codes symbol 0, four quantisation tables of ones:
/// any header that is not refused then decodes from a run of zero bytes.
fn tables() -> Vec<u8> {
    let mut b = vec![];
    for s in 0..4 {
        b.extend(dqt(s, 0, &[1; 64]));
        b.extend(dht(&HTable::from_lens(0, s, &[(0, 1), (1, 2)])));
        b.extend(dht(&HTable::from_lens(1, s, &[(0, 1), (1, 2)])));
    }
    b
}
#[derive(Clone, Debug)]
struct Frame {
    m: u8,
    prec: u8,
    h: usize,
    w: usize,
    comps: Vec<(u8, u8, u8)>,
}
/// A frame header segment as bytes.
fn sof_bytes(f: &Frame) -> Vec<u8> {
    let mut p = vec![f.prec, (f.h >> 8) as u8, f.h as u8, (f.w >> 8) as u8, f.w as u8, f.comps.len() as u8];
    for c in &f.comps {
        p.extend([c.0, c.1, c.2]);
    }
    seg(f.m, &p)
}
/// Every reason to refuse the frame header `s` (with as many bytes following as it may claim).
/// An empty set means legal and supported. The second value is the frame, if it can be read.
fn judge_sof(s: &[u8]) -> (Cats, Option<Frame>) {
    let mut c = Cats::new();
    let m = s[1];
    let n = m & 15;
    let kind = match n {
        0 | 1 | 5 | 9 | 13 => 0,
        2 | 6 | 10 | 14 => 1,
        _ => 2,
    };
    if matches!(n, 5..=7 | 13..=15) {
        c.insert(un("Hierarchical"));
    }
    if n >= 9 {
        c.insert(un("ArithmeticEntropyCoding"));
    }
    let len = (s[2] as usize) << 8 | s[3] as usize;
    if len < 8 {
        c.insert(F.into());
        return (c, None);
    }
    let (prec, h, w, nf) = (s[4], (s[5] as usize) << 8 | s[6] as usize, (s[7] as usize) << 8 | s[8] as usize, s[9] as usize);
    if kind == 2 {
        if !(2..=16).contains(&prec) {
            c.insert(F.into());
        }
    } else if prec == 12 && n != 0 {
        c.insert(un("SamplePrecision(12)"));
    } else if prec != 8 {
        c.insert(F.into());
    }
    if h == 0 {
        c.insert(un("DNL"));
    }
    if w == 0 || nf == 0 || len != 8 + 3 * nf {
        c.insert(F.into());
    }
    if kind == 1 && nf > 4 {
        c.insert(F.into());
    }
    if nf != 0 && nf != 1 && nf != 3 && nf != 4 {
        c.insert(un(&format!("ComponentCount({nf})")));
    }
    if len != 8 + 3 * nf || s.len() < 10 + 3 * nf || nf == 0 {
        return (c, None);
    }
    let comps: Vec<(u8, u8, u8)> = (0..nf).map(|i| (s[10 + 3 * i], s[11 + 3 * i], s[12 + 3 * i])).collect();
    for (i, k) in comps.iter().enumerate() {
        let (hf, vf) = (k.1 >> 4, k.1 & 15);
        if comps[..i].iter().any(|o| o.0 == k.0) || !(1..=4).contains(&hf) || !(1..=4).contains(&vf) || k.2 > 3 || (kind == 2 && k.2 != 0) {
            c.insert(F.into());
        }
    }
    (c, Some(Frame { m, prec, h, w, comps }))
}
/// Refusals that concern subsampling: (must be refused, may be refused).
fn judge_ratio(f: &Frame) -> (bool, bool) {
    let hm = f.comps.iter().map(|c| c.1 >> 4).max().unwrap();
    let vm = f.comps.iter().map(|c| c.1 & 15).max().unwrap();
    let bad = |c: &(u8, u8, u8)| (c.1 >> 4 != 0 && hm % (c.1 >> 4) != 0, c.1 & 15 != 0 && vm % (c.1 & 15) != 0);
    let may = f.comps.iter().any(|c| bad(c).0 || bad(c).1);
    // a single row or column leaves nothing to upsample
    let must = f.comps.iter().any(|c| bad(c).0 && f.w > 1 || bad(c).1 && f.h > 1);
    (must, may)
}
fn lossless_m(m: u8) -> bool {
    m == 0xC3
}
fn scan_for(f: &Frame, ci: &[usize], p: [u8; 3]) -> Vec<u8> {
    let mut s = vec![ci.len() as u8];
    for &c in ci {
        s.extend([f.comps[c].0, 0]);
    }
    s.extend(p);
    seg(0xDA, &s)
}
fn params(m: u8) -> [u8; 3] {
    match m {
        0xC2 => [0, 0, 0],
        0xC3 => [1, 0, 0],
        _ => [0, 63, 0],
    }
}
const ZEROS: usize = 600;
fn check_sof(ctx: &mut Ctx, v: V, s: &[u8], what: &dyn Fn() -> String) -> R {
    // a header that claims more components than it has gets more
    let mut s = s.to_vec();
    let (claim, mut i) = (10 + 3 * s[9] as usize, s[9]);
    while s.len() < claim {
        s.extend([i ^ 0xA5, 0x11, 0]);
        i = i.wrapping_sub(1);
    }
    let len = (s[2] as usize) << 8 | s[3] as usize;
    if len == claim - 2 {
        s.truncate(claim); // and one that claims fewer has fewer
    }
    let s = &s[..];
    let (mut want, f) = judge_sof(s);
    let mut b = SOI.to_vec();
    b.extend(tables());
    b.extend(s);
    let mut ratio_must = false;
    let mut ratio = false;
    let mut lossless_sub = false;
    let mut lossless_must = false;
    if let Some(f) = &f {
        let plausible = f.comps.iter().all(|c| c.1 >> 4 != 0 && c.1 & 15 != 0);
        if plausible {
            (ratio_must, ratio) = judge_ratio(f);
            lossless_sub = lossless_m(f.m) && f.comps.iter().any(|c| c.1 != f.comps[0].1);
            let hm = f.comps.iter().map(|c| (c.1 >> 4) as usize).max().unwrap();
            let vm = f.comps.iter().map(|c| (c.1 & 15) as usize).max().unwrap();
            lossless_must = lossless_sub && f.comps.iter().any(|c| cdiv(f.w * (c.1 >> 4) as usize, hm) != f.w || cdiv(f.h * (c.1 & 15) as usize, vm) != f.h);
        }
        if f.comps.len() <= 4 {
            for i in 0..f.comps.len() {
                b.extend(scan_for(f, &[i], params(f.m)));
                b.extend([0; ZEROS]);
            }
        }
    }
    b.extend(EOI);
    b.extend([0; 40]);
    ctx.state(&b);
    ctx.stream(&b);
    ctx.describe(what);
    ctx.trace();
    let r = session(v, &mut SliceReader::new(&b), &[Act::ReadInfo]);
    let info = match r.first() {
        Some(Res::Unit(Ok(()))) => "Ok".to_string(),
        Some(Res::Unit(Err(e))) => e.cat(),
        x => format!("{x:?}"),
    };
    ctx.outcome(&info);
    let broken = !want.is_empty();
    if ratio {
        want.insert(un("NonIntegerSubsamplingRatio"));
    }
    if lossless_sub {
        want.insert(un("SubsamplingRatio"));
    }
    let ok = if info == "Ok" { !broken && (!ratio_must || lossless_sub) } else { want.contains(&info) };
    ensure!(ok, "read_info", "{v:?} {}: read_info gives {info}, {}", what(), if broken || ratio_must { format!("expected one of {want:?}") } else { format!("expected Ok (or {want:?})") });
    if info != "Ok" {
        return Ok(());
    }
    let f = f.unwrap();
    let hm = f.comps.iter().map(|c| (c.1 >> 4) as usize).max().unwrap();
    let vm = f.comps.iter().map(|c| (c.1 & 15) as usize).max().unwrap();
    let blocks = cdiv(f.w, 8 * hm) * hm * cdiv(f.h, 8 * vm) * vm;
    let symbols = if lossless_m(f.m) { f.w * f.h } else { 2 * blocks };
    if symbols > ZEROS * 8 - 64 {
        ctx.count("header only (image too large for the supplied data)", 1);
        return Ok(());
    }
    // accepted by read_info: decoding either succeeds, or refuses lossless subsampling
    let o = dec(ctx, v, &b, &Opts { ct: if f.comps.len() == 1 { None } else { Some(Ct::None) }, ..Default::default() });
    match &o.res {
        Ok(d) => {
            let n = f.w * f.h * f.comps.len() * if lossless_m(f.m) && f.prec > 8 { 2 } else { 1 };
            ensure!(!lossless_must && d.len() == n, "decoded", "{v:?} {}: {} bytes, expected {n}; lossless subsampling {lossless_must}", what(), d.len());
        }
        Err(e) => {
            let c = e.cat();
            ensure!(lossless_sub && (c == un("SubsamplingRatio") || ratio && c == un("NonIntegerSubsamplingRatio")), "refused", "{v:?} {}: decode gives {e:?}", what());
        }
    }
    Ok(())
}
fn frames() -> Vec<Frame> {
    let g = |m, prec, comps: &[(u8, u8, u8)]| Frame { m, prec, h: 10, w: 9, comps: comps.to_vec() };
    vec![
        g(0xC0, 8, &[(1, 0x11, 0)]),
        g(0xC0, 8, &[(1, 0x22, 0), (2, 0x11, 1), (3, 0x11, 1)]),
        g(0xC1, 8, &[(1, 0x21, 0), (2, 0x11, 2), (3, 0x11, 3)]),
        g(0xC2, 8, &[(0, 0x12, 0), (255, 0x11, 1), (7, 0x11, 1), (9, 0x12, 3)]),
        g(0xC3, 8, &[(1, 0x11, 0)]),
        g(0xC3, 16, &[(1, 0x11, 0), (2, 0x11, 0), (3, 0x11, 0)]),
        g(0xC2, 8, &[(1, 0x44, 0), (2, 0x22, 0), (3, 0x41, 0)]),
    ]
}
const INT: [u8; 22] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 16, 17, 0x12, 0x14, 0x21, 0x22, 0x44, 0x51, 0x31, 255];

/// A stream around one scan header: everything before it, frame, rest after the header.
struct ScanBase {
    name: &'static str,
    f: Frame,
    /// a scan (DC, all components) comes first
    second: bool,
    head: Vec<u8>,
    sos: Vec<u8>,
}
fn scan_bases() -> Vec<ScanBase> {
    let mut v = vec![];
    let mut add = |name, m, prec, comps: &[(u8, u8, u8)], second: bool, sel: &[(u8, u8)], p: [u8; 3]| {
        let f = Frame { m, prec, h: 10, w: 9, comps: comps.to_vec() };
        let mut head = SOI.to_vec();
        head.extend(tables());
        head.extend(sof_bytes(&f));
        if second {
            let all: Vec<usize> = (0..comps.len()).collect();
            head.extend(scan_for(&f, &all, [0, 0, 0]));
            head.extend([0; ZEROS]);
        }
        let mut s = vec![sel.len() as u8];
        for x in sel {
            s.extend([x.0, x.1]);
        }
        s.extend(p);
        v.push(ScanBase { name, f, second, head, sos: seg(0xDA, &s) });
    };
    let c3 = [(1, 0x22, 0), (2, 0x11, 1), (3, 0x11, 1)];
    add("baseline gray", 0xC0, 8, &[(1, 0x11, 0)], false, &[(1, 0)], [0, 63, 0]);
    add("baseline 4:2:0", 0xC0, 8, &c3, false, &[(1, 0), (2, 0x11), (3, 0x11)], [0, 63, 0]);
    add("extended", 0xC1, 8, &[(5, 0x11, 0), (6, 0x11, 1), (7, 0x11, 2)], false, &[(5, 0x23), (6, 0x32), (7, 0)], [0, 63, 0]);
    add("extended, 10 and 11 blocks per MCU", 0xC1, 8, &[(1, 0x42, 0), (2, 0x11, 0), (3, 0x11, 0), (4, 0x11, 0)], false, &[(1, 0), (2, 0), (3, 0)], [0, 63, 0]);
    add("progressive first scan", 0xC2, 8, &c3, false, &[(1, 0), (2, 0x10), (3, 0x11)], [0, 0, 1]);
    add("progressive AC scan", 0xC2, 8, &c3, true, &[(2, 0)], [1, 63, 0]);
    add("lossless gray 8 bit", 0xC3, 8, &[(1, 0x11, 0)], false, &[(1, 0)], [1, 0, 0]);
    add("lossless gray 16 bit", 0xC3, 16, &[(1, 0x11, 0)], false, &[(1, 0x30)], [7, 0, 15]);
    add("lossless 3 components", 0xC3, 8, &[(1, 0x11, 0), (2, 0x11, 0), (3, 0x11, 0)], false, &[(1, 0), (2, 0x10), (3, 0x20)], [4, 0, 7]);
    add("lossless 2 bit", 0xC3, 2, &[(1, 0x11, 0)], false, &[(1, 0)], [1, 0, 1]);
    v
}
enum Verdict {
    Refuse,
    Accept,
    Either,
}
/// What the format says about a scan header for this frame.
fn judge_sos(b: &ScanBase, s: &[u8]) -> Verdict {
    let f = &b.f;
    let len = (s[2] as usize) << 8 | s[3] as usize;
    let n = s[4] as usize;
    if n == 0 || n > 4 || len != 6 + 2 * n || s.len() < 8 + 2 * n {
        return Verdict::Refuse;
    }
    let base = f.m == 0xC0;
    let ll = f.m == 0xC3;
    let prog = f.m == 0xC2;
    let mut idx = vec![];
    let mut either = false;
    for i in 0..n {
        let (id, t) = (s[5 + 2 * i], s[6 + 2 * i]);
        match f.comps.iter().position(|c| c.0 == id) {
            Some(k) => {
                if idx.iter().any(|&x| x >= k) {
                    return Verdict::Refuse;
                }
                idx.push(k);
            }
            None => return Verdict::Refuse,
        }
        let m = if base { 1 } else { 3 };
        if t >> 4 > m || t & 15 > m {
            return Verdict::Refuse;
        }
        either |= ll && t & 15 != 0;
    }
    let blocks: usize = idx.iter().map(|&k| ((f.comps[k].1 >> 4) * (f.comps[k].1 & 15)) as usize).sum();
    if n > 1 && blocks > 10 {
        return Verdict::Refuse;
    }
    let (ss, se, ah, al) = (s[5 + 2 * n], s[6 + 2 * n], s[7 + 2 * n] >> 4, s[7 + 2 * n] & 15);
    if prog {
        if se > 63 || ss > se || (ss == 0 && se != 0) || (ss != 0 && n != 1) || ah > 13 || al > 13 || (ah != 0 && ah != al + 1) {
            return Verdict::Refuse;
        }
        // legal by its fields; whether it is legal at this point of the image is another question
        either |= ah != 0 || (ss == 0) == b.second;
    } else if ll {
        if ss > 7 || se != 0 || ah != 0 || al >= f.prec {
            return Verdict::Refuse;
        }
        either |= ss == 0;
    } else {
        if ss != 0 || (se != 63 && se != 0) || ah != 0 || al != 0 {
            return Verdict::Refuse;
        }
        either |= se == 0; // tolerated in practice
    }
    // a sequential or lossless image with components left out is an error of its own
    either |= !prog && idx.len() != f.comps.len();
    if either {
        Verdict::Either
    } else {
        Verdict::Accept
    }
}
fn check_sos(ctx: &mut Ctx, v: V, b: &ScanBase, s: &[u8], what: &dyn Fn() -> String) -> R {
    let mut x = b.head.clone();
    x.extend(s);
    x.extend([0; ZEROS]);
    x.extend(EOI);
    ctx.state(&x);
    ctx.describe(what);
    let o = dec(ctx, v, &x, &Opts { ct: if b.f.comps.len() == 1 { None } else { Some(Ct::None) }, ..Default::default() });
    ctx.outcome(o.res.as_ref().map(|_| 0).map_err(|e| e.cat()));
    match judge_sos(b, s) {
        Verdict::Refuse => ensure!(matches!(o.res, Err(E::Format(_))), "accepted", "{v:?} {}: expected a format error, {}", what(), o.brief()),
        Verdict::Accept => ensure!(o.res.is_ok(), "refused", "{v:?} {}: expected success, {}", what(), o.brief()),
        Verdict::Either => ensure!(!matches!(&o.res, Err(e) if e.is_panic()), "panic", "{v:?} {}: {}", what(), o.brief()),
    }
    Ok(())
}
/// A gray image around an extra table segment placed before or after the frame header.
fn with_seg(x: &[u8], after: bool, m: u8) -> Vec<u8> {
    let f = Frame { m, prec: 8, h: 8, w: 8, comps: vec![(1, 0x11, 0)] };
    let mut b = SOI.to_vec();
    b.extend(tables());
    if !after {
        b.extend(x);
    }
    b.extend(sof_bytes(&f));
    if after {
        b.extend(x);
    }
    b.extend(scan_for(&f, &[0], params(m)));
    b.extend([0; 60]);
    b.extend(EOI);
    b.extend([0; 300]);
    b
}
fn expect(ctx: &mut Ctx, v: V, b: &[u8], refuse: bool, what: &str) -> R {
    ctx.state(b);
    ctx.describe(|| what.to_string());
    let o = dec(ctx, v, b, &Opts::default());
    if refuse {
        ensure!(matches!(o.res, Err(E::Format(_))), "accepted", "{what}: expected a format error, {}", o.brief());
    } else {
        ensure!(o.res.is_ok(), "refused", "{what}: expected success, {}", o.brief());
    }
    Ok(())
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    models.push(model("frame header: every byte, every value", |ctx| {
        let fs = frames();
        let i = ctx.choose(fs.len());
        let mut s = sof_bytes(&fs[i]);
        let p = ctx.range(1, s.len() - 1);
        let x = ctx.choose(256) as u8;
        if p == 1 && !matches!(x, 0xC0..=0xC3 | 0xC5..=0xC7 | 0xC9..=0xCB | 0xCD..=0xCF) {
            return Ok(());
        }
        s[p] = x;
        let v = ctx.pick(&[V::Mpsc, V::Pi]);
        check_sof(ctx, v, &s, &|| format!("frame {i} byte {p} = {x:02x}: {s:02x?}"))
    }));
    models.push(model("frame header: every pair of bytes, interesting values", |ctx| {
        let fs = frames();
        let i = ctx.choose(fs.len());
        let mut s = sof_bytes(&fs[i]);
        let p = ctx.range(1, s.len() - 2);
        let q = ctx.range(p + 1, s.len() - 1);
        let m = [0xC0u8, 0xC1, 0xC2, 0xC3, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF];
        s[p] = if p == 1 { ctx.pick(&m) } else { ctx.pick(&INT) };
        s[q] = ctx.pick(&INT);
        check_sof(ctx, V::Pi, &s, &|| format!("frame {i} bytes {p}, {q}: {s:02x?}"))
    }));
    models.push(model("frame header: factors of three and four components", |ctx| {
        let fs: [u8; 20] = [0x11, 0x12, 0x13, 0x14, 0x21, 0x22, 0x23, 0x24, 0x31, 0x32, 0x33, 0x34, 0x41, 0x42, 0x43, 0x44, 0x01, 0x10, 0x50, 0x15];
        let m = ctx.pick(&[0xC0u8, 0xC2, 0xC3]);
        let mut f = Frame { m, prec: 8, h: 10, w: 9, comps: vec![] };
        (f.w, f.h) = ctx.pick(&[(9usize, 10usize), (1, 9), (9, 1), (1, 1)]);
        let n = if ctx.thorough() { ctx.pick(&[1usize, 3, 4]) } else { ctx.pick(&[1usize, 3]) };
        for i in 0..n {
            let k = if i == 3 { ctx.pick(&[0x11, 0x22, 0x31]) } else { ctx.pick(&fs) };
            f.comps.push((i as u8 + 1, k, 0));
        }
        let s = sof_bytes(&f);
        check_sof(ctx, V::Pi, &s, &|| format!("{f:?}"))
    }));
    models.push(model("frame header: component counts, precisions, identifiers", |ctx| {
        let m = ctx.pick(&[0xC0u8, 0xC1, 0xC2, 0xC3, 0xC5, 0xC9, 0xCB, 0xCF]);
        let n = ctx.choose(256);
        let prec = if n < 6 { ctx.choose(256) as u8 } else { ctx.pick(&[2, 8, 12, 16]) };
        let f = Frame { m, prec, h: 8, w: 8, comps: (0..n).map(|i| (i as u8 ^ 0x5A, 0x11, 0)).collect() };
        let s = sof_bytes(&f);
        check_sof(ctx, V::Pi, &s, &|| format!("marker {m:02x} precision {prec}, {n} components"))
    }));
    models.push(model("frame header: every width and height", |ctx| {
        let m = ctx.pick(&[0xC0u8, 0xC2, 0xC3]);
        let x = ctx.choose(65536);
        let which = ctx.choose(2);
        let (w, h) = if which == 0 { (x, 3) } else { (3, x) };
        let f = Frame { m, prec: 8, h, w, comps: vec![(1, 0x11, 0)] };
        let s = sof_bytes(&f);
        check_sof(ctx, V::Pi, &s, &|| format!("marker {m:02x} {w}x{h}"))
    }));
    models.push(model("scan header: every byte, every value", |ctx| {
        let bs = scan_bases();
        let b = &bs[ctx.choose(bs.len())];
        let mut s = b.sos.clone();
        let p = ctx.range(2, s.len() - 1);
        s[p] = ctx.choose(256) as u8;
        let v = ctx.pick(&[V::Mpsc, V::Pi]);
        check_sos(ctx, v, b, &s, &|| format!("{}: byte {p}: {s:02x?}", b.name))
    }));
    models.push(model("scan header: every pair of bytes, interesting values", |ctx| {
        let bs = scan_bases();
        let b = &bs[ctx.choose(bs.len())];
        let mut s = b.sos.clone();
        let p = ctx.range(2, s.len() - 2);
        let q = ctx.range(p + 1, s.len() - 1);
        let vals: [u8; 24] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 14, 15, 16, 17, 32, 0x22, 0x33, 0x40, 0x45, 62, 63, 64, 0xE0, 255];
        s[p] = ctx.pick(&vals);
        s[q] = ctx.pick(&vals);
        check_sos(ctx, V::Pi, b, &s, &|| format!("{}: bytes {p}, {q}: {s:02x?}", b.name))
    }));
    models.push(model("scan header: all spectral bands and approximations", |ctx| {
        let bs = scan_bases();
        let b = &bs[ctx.pick(&[0usize, 4, 5, 6, 7])];
        let mut s = b.sos.clone();
        let n = s.len();
        s[n - 3] = ctx.pick(&(0..66).chain([127, 128, 255]).collect::<Vec<u8>>());
        s[n - 2] = ctx.pick(&(0..66).chain([127, 128, 255]).collect::<Vec<u8>>());
        s[n - 1] = if ctx.thorough() { ctx.choose(256) as u8 } else { ctx.pick(&[0, 1, 2, 0x0D, 0x0E, 0x10, 0x21, 0x20, 0xDC, 0xED, 0xEE, 0xFF]) };
        check_sos(ctx, V::Pi, b, &s, &|| format!("{}: {s:02x?}", b.name))
    }));
    models.push(model("scan header: component selections", |ctx| {
        let bs = scan_bases();
        let b = &bs[ctx.choose(bs.len())];
        let n = ctx.choose(6);
        let ids: Vec<u8> = b.f.comps.iter().map(|c| c.0).chain([99]).collect();
        let mut p = vec![n as u8];
        for _ in 0..n {
            p.push(ctx.pick(&ids));
            p.push(0);
        }
        p.extend(&b.sos[b.sos.len() - 3..]);
        let delta = ctx.choose(3); // length field right, one more, one less
        let mut s = seg(0xDA, &p);
        s[3] = [s[3], s[3] + 1, s[3] - 1][delta];
        check_sos(ctx, V::Pi, b, &s, &|| format!("{}: {s:02x?}", b.name))
    }));
    models.push(model("quantisation tables", |ctx| {
        let after = ctx.flag();
        let k = ctx.choose(4);
        let v = ctx.pick(&ALLV);
        let t1: [u16; 64] = std::array::from_fn(|i| i as u16 + 1);
        let (b, refuse, what) = match k {
            0 => {
                // every header byte, with room for a 16-bit table
                let x = ctx.choose(256) as u8;
                let pq = x >> 4;
                let mut p = dqt_body(0, pq.min(1), &t1);
                p[0] = x;
                (seg(0xDB, &p), pq > 1 || x & 15 > 3, format!("Pq/Tq {x:02x}"))
            }
            1 => {
                // a zero entry at each place
                let pq = ctx.choose(2) as u8;
                let i = ctx.choose(64);
                let mut t = t1.map(|x| x + if pq == 1 { 300 } else { 0 });
                // 0 in one byte of a 16-bit entry is not a zero entry
                let z = ctx.choose(3);
                t[i] = [0, 256, 255][z];
                if pq == 0 {
                    t[i] &= 255;
                }
                (dqt(1, pq, &t), t[i] == 0, format!("entry {i} = {} pq {pq}", t[i]))
            }
            2 => {
                // every length
                let pq = ctx.choose(2) as u8;
                let len = ctx.choose(200);
                let mut s = dqt(1, pq, &t1);
                s.extend([0xC3; 200]);
                s.truncate(2 + len.max(2));
                s[2] = 0;
                s[3] = len as u8;
                // whatever does not hold whole tables is refused; the filler is no table header
                let unit = 65 + 64 * pq as usize;
                (s, len < 2 || (len != 2 && len != 2 + unit), format!("length {len} pq {pq}"))
            }
            _ => {
                // several tables in one segment, cut or padded
                let n = ctx.range(1, 5);
                let mix = ctx.choose(4);
                let cut = ctx.range(0, 2);
                let mut p = vec![];
                for i in 0..n {
                    p.extend(dqt_body(i as u8 & 3, (mix >> (i & 1) & 1) as u8, &t1));
                }
                match cut {
                    1 => {
                        p.pop();
                    }
                    2 => p.push(0),
                    _ => {}
                }
                (seg(0xDB, &p), cut != 0, format!("{n} tables mix {mix} cut {cut}"))
            }
        };
        expect(ctx, v, &with_seg(&b, after, 0xC0), refuse, &format!("{v:?} DQT {what} after frame {after}"))
    }));
    models.push(model("Huffman tables", |ctx| {
        let after = ctx.flag();
        let m = ctx.pick(&[0xC0u8, 0xC1, 0xC2]);
        let k = ctx.choose(4);
        let t = HTable::from_lens(0, 0, &[(0, 1), (1, 2), (2, 4), (5, 9)]);
        let body = dht_body(&t);
        let (b, refuse, what) = match k {
            0 => {
                let x = ctx.choose(256) as u8;
                let mut p = body.clone();
                p[0] = x;
                let idx = x & 15;
                (seg(0xC4, &p), x >> 4 > 1 || idx > 3 || (after && m == 0xC0 && idx > 1), format!("class/slot {x:02x}"))
            }
            1 => {
                // every count byte, with and without the values it announces
                let i = ctx.choose(16);
                let c = ctx.choose(256);
                let fit = ctx.choose(3); // values: fitting, one short, one too many
                let mut bits: [usize; 16] = std::array::from_fn(|j| t.bits[j] as usize);
                bits[i] = c;
                let n: usize = bits.iter().sum();
                let kraft: usize = bits.iter().enumerate().map(|(j, &b)| b << (15 - j)).sum();
                let mut p = vec![0x01];
                p.extend(bits.iter().map(|&b| b as u8));
                let l = [n, n.saturating_sub(1), n + 1][fit];
                p.extend((0..l).map(|x| x as u8));
                (seg(0xC4, &p), n == 0 || n > 256 || kraft > 65536 || l != n, format!("count of length {} = {c}, {l} values", i + 1))
            }
            2 => {
                let len = ctx.choose(60);
                let mut s = seg(0xC4, &body);
                s.extend([0x30; 60]); // class 3: no table header
                s.truncate(2 + len.max(2));
                s[2] = 0;
                s[3] = len as u8;
                (s, len != 2 && len != 2 + body.len(), format!("length {len}"))
            }
            _ => {
                let n = ctx.range(1, 6);
                let cut = ctx.range(0, 2);
                let mut p = vec![];
                for i in 0..n {
                    let mut x = body.clone();
                    x[0] = ((i & 1) << 4 | (i / 2) & 1) as u8;
                    p.extend(x);
                }
                match cut {
                    1 => {
                        p.pop();
                    }
                    2 => p.push(0),
                    _ => {}
                }
                (seg(0xC4, &p), cut != 0, format!("{n} tables cut {cut}"))
            }
        };
        // tables that stay in effect must still code symbol 0 with a zero bit: only slots 2, 3 or equal ones change
        let f = with_seg(&b, after, m);
        // a replaced table codes 0 as a zero bit as well, unless its counts were changed (slot 1 then, unused)
        expect(ctx, V::Pi, &f, refuse, &format!("DHT {what} after frame {after} marker {m:02x}"))
    }));
    models.push(model("restart interval, comment and application segments", |ctx| {
        let after = ctx.flag();
        let k = ctx.choose(3);
        let v = ctx.pick(&[V::Mpsc, V::Pi]);
        let (b, refuse, what) = match k {
            0 => {
                let x = ctx.choose(65536);
                (dri(x), false, format!("interval {x}"))
            }
            1 => {
                let len = ctx.choose(300);
                let mut s = vec![0xFF, 0xDD, (len >> 8) as u8, len as u8];
                s.resize(2 + len.max(2), 0);
                (s, len != 4, format!("DRI length {len}"))
            }
            _ => {
                let c = ctx.pick(&(0xE0..=0xEFu8).chain([0xFE]).collect::<Vec<u8>>());
                let len = ctx.choose(70);
                let mut s = vec![0xFF, c, 0, len as u8];
                s.resize(2 + len.max(2), 0);
                (s, len < 2, format!("marker {c:02x} length {len}"))
            }
        };
        expect(ctx, v, &with_seg(&b, after, 0xC0), refuse, &format!("{v:?} {what} after frame {after}"))
    }));
    let _ = th;
    super::spec(
        "frame headers: 7 bases x every byte x 256 values, all pairs of bytes x 22 values, all factor triples (thorough quadruples) x sizes, all component counts x precisions, all widths and heights; scan headers: 10 bases x every byte x 256, all pairs x 24 values, all bands x approximations, all component selections; DQT, DHT, DRI, COM, APP: every header byte, count, length and zero entry. Data is arranged so that a header that is wrongly accepted decodes",
        &["a header with several violations may be refused for any of them", "tolerated either way: Se = 0 in sequential scans, Ta and predictor 0 in lossless scans, non-integer factors in a direction of one sample, scans illegal only by their position in a progressive image"],
        models,
    )
}
