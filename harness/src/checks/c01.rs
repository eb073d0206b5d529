use super::bases::*;
use super::*;
use std::sync::Arc;

/// Skip mutants whose frame header announces an image too large to be worth the memory.
pub fn area(bytes: &[u8]) -> u64 {
    let mut i = 2;
    let mut m = 0;
    // scan for anything that could be read as a SOF segment
    while i + 10 < bytes.len() {
        if bytes[i] == 0xFF && (0xC0..=0xCF).contains(&bytes[i + 1]) && ![0xC4, 0xC8, 0xCC].contains(&bytes[i + 1]) {
            let h = (bytes[i + 5] as u64) << 8 | bytes[i + 6] as u64;
            let w = (bytes[i + 7] as u64) << 8 | bytes[i + 8] as u64;
            m = m.max(w * h);
        }
        i += 1;
    }
    m
}

fn total(ctx: &mut Ctx, v: V, bytes: &[u8], o: &Opts) -> R {
    let out = dec(ctx, v, bytes, o);
    ctx.outcome(out.res.as_ref().map(|d| d.len()).map_err(|e| e.cat()));
    match &out.res {
        Err(E::Panic(m)) => fail("panic", format!("{v:?} {o:?}: panic: {m}")),
        _ => Ok(()),
    }
}
/// A whole call history: no call may panic, also not one after a failed one.
fn history(ctx: &mut Ctx, v: V, bytes: &[u8], acts: &[Act]) -> R {
    ctx.stream(bytes);
    ctx.describe(|| format!("{v:?} {acts:?}"));
    ctx.trace();
    let rs = session(v, &mut SliceReader::new(bytes), acts);
    match rs.last() {
        Some(Res::Panic(m)) => fail("panic-history", format!("{v:?} {acts:?}: call {} panics: {m}", rs.len() - 1)),
        _ => Ok(()),
    }
}
fn pick_scale(ctx: &mut Ctx, img: &Img) -> Option<(u16, u16)> {
    match ctx.choose(4) {
        0 => None,
        1 => Some((1, 1)),
        2 => Some(((img.w as u16).div_ceil(4), (img.h as u16).div_ceil(4))),
        _ => Some(((img.w as u16).div_ceil(2), (img.h as u16).div_ceil(2))),
    }
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let bs = Arc::new(all_bases());
    let small = Arc::new(bases());
    let mut models = vec![];
    {
        let b = bs.clone();
        models.push(model("every option combination on valid streams", move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let v = ctx.pick(&ALLV);
            let ct = match ctx.choose(10) {
                0 => None,
                k => Some(ALLCT[k - 1]),
            };
            let scale = match ctx.choose(9) {
                0 => None,
                1 => Some((0, 0)),
                2 => Some((1, 1)),
                3 => Some((65535, 65535)),
                4 => Some((0, 65535)),
                5 => Some((65535, 0)),
                k => Some(((base.img.w as u16).div_ceil([2, 4, 8][k - 6]), (base.img.h as u16).div_ceil([2, 4, 8][k - 6]))),
            };
            let limit = ctx.pick(&[None, Some(0), Some(1), Some(usize::MAX), Some(base.img.w * base.img.h)]);
            ctx.state((base.name, ct, scale, limit, v));
            ctx.describe(|| format!("{} {v:?} {ct:?} {scale:?} {limit:?}", base.name));
            total(ctx, v, &base.bytes, &Opts { scale, ct, limit })
        }));
    }
    {
        let b = bs.clone();
        models.push(model("every truncation", move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let n = ctx.choose(base.bytes.len() + 1);
            let v = if ctx.thorough() { ctx.pick(&ALLV) } else { ctx.pick(&[V::Rayon, V::Mpsc]) };
            let scale = if ctx.thorough() { pick_scale(ctx, &base.img) } else { None };
            ctx.state((base.name, n, v));
            ctx.describe(|| format!("{} cut to {n} bytes {v:?}", base.name));
            total(ctx, v, &base.bytes[..n], &Opts { scale, ..Default::default() })
        }));
    }
    {
        let b = if th { bs.clone() } else { small.clone() };
        models.push(model("every single-byte substitution", move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let i = ctx.choose(base.bytes.len());
            let x = 1 + ctx.choose(255);
            let mut m = base.bytes.clone();
            m[i] ^= x as u8;
            let (v, scale) = if ctx.thorough() { (ctx.pick(&ALLV), pick_scale(ctx, &base.img)) } else { (V::Rayon, None) };
            if area(&m) > 1 << 21 {
                ctx.count("skipped_huge", 1);
                return Ok(());
            }
            ctx.state((base.name, i, x, scale, v));
            ctx.describe(|| format!("{} byte {i} ^ {x:#x} {v:?} {scale:?}", base.name));
            total(ctx, v, &m, &Opts { scale, ..Default::default() })
        }));
    }
    {
        let b = small.clone();
        models.push(model("every single-byte insertion and deletion", move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let i = ctx.choose(base.bytes.len());
            let k = ctx.choose(17);
            let mut m = base.bytes.clone();
            if k == 0 {
                m.remove(i);
            } else {
                m.insert(i, [0, 1, 2, 3, 0x0f, 0x11, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xc4, 0xd0, 0xd9, 0xda, 0xff][k - 1]);
            }
            if area(&m) > 1 << 21 {
                ctx.count("skipped_huge", 1);
                return Ok(());
            }
            ctx.state((base.name, i, k));
            total(ctx, V::Rayon, &m, &Opts::default())
        }));
    }
    if crate::remote::available() {
        // 32-bit address space: size computations must not wrap either
        let b = bs.clone();
        models.push(model("wasm32: boundary substitutions of every byte", move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let i = ctx.choose(base.bytes.len());
            let x = ctx.pick(if ctx.thorough() { &[0u8, 1, 2, 3, 4, 7, 15, 16, 17, 63, 64, 127, 128, 254, 255][..] } else { &[0u8, 1, 16, 255][..] });
            let mut m = base.bytes.clone();
            m[i] = x;
            if area(&m) > 1 << 20 {
                ctx.count("skipped_huge", 1);
                return Ok(());
            }
            ctx.state((base.name, i, x));
            ctx.describe(|| format!("{} byte {i} = {x:#x} wasm32", base.name));
            total(ctx, V::WasmSimd, &m, &Opts::default())
        }));
        models.push(model("wasm32: every announced size", move |ctx| {
            // sizes around those where a buffer's size in bytes passes 2^31 or 2^32; the data is missing
            const D: [usize; 19] = [1, 8, 4096, 8184, 8192, 16376, 16384, 23168, 23176, 32760, 32767, 32768, 46336, 46340, 46341, 46344, 65520, 65528, 65535];
            const FEW: [usize; 9] = [1, 8192, 16384, 23176, 32767, 32768, 46341, 65528, 65535];
            let d = if ctx.thorough() { &D[..] } else { &FEW[..] };
            let w = ctx.pick(d);
            let h = ctx.pick(d);
            let kind = ctx.choose(4); // sequential, progressive, lossless 8 and 16 bits
            let comps: &[(u8, u8)] = [&[(1u8, 1u8)][..], &[(1, 1); 3], &[(2, 2), (1, 1), (1, 1)], &[(1, 1); 4]][ctx.choose(4)];
            if kind >= 2 && comps[0] != (1, 1) {
                return Ok(());
            }
            let scale = if kind >= 2 { None } else { ctx.pick(&[None, Some((1u16, 1u16)), Some((w.div_ceil(2) as u16, h.div_ceil(2) as u16))]) };
            let v = if ctx.thorough() { ctx.pick(&[V::Wasm, V::WasmSimd]) } else { V::Wasm };
            let n = comps.len() as u64;
            let area = (w.next_multiple_of(8) * h.next_multiple_of(8)) as u64;
            // the largest single buffer and all together: coefficients or 16-bit samples, planes
            let single = if kind == 0 { area } else { 2 * area };
            let f = match scale {
                None => 1,
                Some((1, 1)) => 64,
                _ => 4,
            };
            let (single, all) = if kind == 0 { (single / f, n * area / f) } else { (single, n * single) };
            if all > (if ctx.thorough() { 700 } else { 300 }) << 20 && single < 1 << 31 {
                ctx.count("skipped_memory", 1);
                return Ok(());
            }
            let mut b = SOI.to_vec();
            let (m, prec) = [(0xC0u8, 8u8), (0xC2, 8), (0xC3, 8), (0xC3, 16)][kind];
            b.extend(dqt(0, 0, &[1; 64]));
            for class in 0..2 {
                b.extend(dht(&HTable::from_lens(class, 0, &[(0, 1), (1, 2)])));
            }
            let mut p = vec![prec, (h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8, n as u8];
            for (i, c) in comps.iter().enumerate() {
                p.extend([i as u8 + 1, c.0 << 4 | c.1, 0]);
            }
            b.extend(seg(m, &p));
            let mut p = vec![n as u8];
            for i in 0..n {
                p.extend([i as u8 + 1, 0]);
            }
            p.extend(match kind {
                0 => [0u8, 63, 0],
                1 => [0, 0, 0],
                _ => [1, 0, 0],
            });
            b.extend(seg(0xDA, &p));
            ctx.state(&b);
            ctx.describe(|| format!("{w}x{h} kind {kind} {comps:?} scale {scale:?} {v:?}"));
            let o = dec(ctx, v, &b, &Opts { scale, ..Default::default() });
            ensure!(matches!(o.res, Err(E::Format(_) | E::Io(..))), "size", "{v:?} {w}x{h} kind {kind} {comps:?} scale {scale:?}: {}", o.brief());
            Ok(())
        }));
    }
    {
        // pairs of header bytes over boundary values
        let b = small.clone();
        models.push(model("pairs of header bytes, boundary values", move |ctx| {
            const VALS: [u8; 10] = [0, 1, 2, 3, 4, 0x0f, 0x11, 0x40, 0x80, 0xff];
            let base = &b[ctx.choose(b.len())];
            // header bytes: all except DQT tables, APP payloads and entropy data
            let mut idx = vec![];
            let mut off = 0;
            for s in &base.segs {
                let hl = if s.len() < 4 { 0 } else { 2 + ((s[2] as usize) << 8 | s[3] as usize) };
                let take = match s.get(1) {
                    Some(0xDB) => 5,
                    Some(0xC4) => hl,
                    Some(&m) if m >= 0xE0 => 4,
                    _ => hl,
                };
                idx.extend((1..take.min(hl).max(2)).map(|k| off + k));
                off += s.len();
            }
            if !ctx.thorough() {
                // quick: the frame header crossed with everything else
                let sof: Vec<usize> = (base.sof_end - 8 - 3 * base.img.comps.len()..base.sof_end).collect();
                let i = ctx.pick(&sof);
                let j = ctx.pick(&idx);
                let (a, c) = (ctx.pick(&VALS), ctx.pick(&VALS));
                let mut m = base.bytes.clone();
                m[i] = a;
                m[j] = c;
                if area(&m) > 1 << 20 {
                    ctx.count("skipped_huge", 1);
                    return Ok(());
                }
                ctx.state((base.name, i, j, a, c));
                return total(ctx, V::Rayon, &m, &Opts::default());
            }
            let i = ctx.choose(idx.len());
            let j = i + ctx.choose(idx.len() - i);
            let (a, c) = (ctx.pick(&VALS), ctx.pick(&VALS));
            let mut m = base.bytes.clone();
            m[idx[i]] = a;
            m[idx[j]] = c;
            if area(&m) > 1 << 20 {
                ctx.count("skipped_huge", 1);
                return Ok(());
            }
            ctx.state((base.name, i, j, a, c));
            total(ctx, V::Rayon, &m, &Opts::default())
        }));
    }
    {
        // all short entropy-coded segments for every process and scan type
        models.push(model("every short entropy-coded segment", move |ctx| {
            let kind = ctx.choose(9);
            let huff = ctx.choose(3);
            let q = qts();
            let (img, pre, last): (Img, Vec<Scan>, Scan) = match kind {
                0 => (dct(0, 17, 9, &[(1, 1)], 1), vec![], Scan::seq(&[0])),
                1 => (dct(0, 9, 9, &[(2, 1), (1, 1), (1, 1)], 1), vec![], Scan::seq(&[0, 1, 2]).ri(1)),
                2 => (dct(2, 17, 9, &[(1, 1)], 1), vec![], Scan::prog(&[0], 0, 0, 0, 13)),
                3 => (dct(2, 17, 9, &[(1, 1)], 1), vec![], Scan::prog(&[0], 1, 63, 0, 13)),
                4 => (dct(2, 17, 9, &[(1, 1)], 1), vec![Scan::prog(&[0], 1, 63, 0, 1)], Scan::prog(&[0], 1, 63, 1, 0)),
                5 => (dct(2, 17, 9, &[(1, 1)], 1), vec![Scan::prog(&[0], 60, 63, 0, 13)], Scan::prog(&[0], 60, 63, 14, 13)),
                6 => (lossless(16, 3, 2, 1, 1), vec![], Scan::lossless(&[0], 4, 0)),
                7 => (lossless(8, 3, 2, 3, 1), vec![], Scan::lossless(&[0, 1, 2], 1, 3)),
                _ => (dct(2, 17, 9, &[(1, 1)], 1), vec![Scan::prog(&[0], 5, 5, 0, 0)], Scan::prog(&[0], 5, 5, 0, 0)),
            };
            // ah = 14 is not encodable; the header is checked elsewhere
            let last = if last.ah == 14 { Scan { ah: 0, ..last } } else { last };
            let mut segs = segments(&img, &q, &pre);
            segs.pop();
            // tables with many symbols, of three shapes
            let syms: Vec<u8> = match huff {
                0 => vec![0, 1, 0x11, 0xf0, 0x0f, 0xe0, 0x20],
                1 => (0..=255u8).collect(),
                _ => (0..=255u8).rev().collect(),
            };
            let shape = [Huff::Flat, Huff::Flat, Huff::Skew][huff];
            let dcs: Vec<u8> = match kind {
                6 | 7 => (0..=17).collect(),
                _ => (0..=12).collect(),
            };
            segs.push(dht(&HTable::build(0, 0, &dcs, if huff == 2 { Huff::Skew } else { Huff::Flat })));
            segs.push(dht(&HTable::build(1, 0, &syms, shape)));
            if last.ri > 0 {
                segs.push(dri(last.ri));
            }
            segs.push(sos(&img, &last));
            let mut m = segs.concat();
            let hdr = m.len();
            let n = ctx.choose(if ctx.thorough() { 65536 * 16 } else { 65536 });
            m.push(n as u8);
            m.push((n >> 8) as u8);
            if n >> 16 != 0 {
                m.push((n >> 12) as u8 & 0xf0 | 0x0f);
            }
            let tail = ctx.choose(3);
            match tail {
                0 => m.extend_from_slice(&EOI),
                1 => m.extend_from_slice(&[0x5a, 0xff, 0x00, 0x81, 0xff, 0xd9]),
                _ => m.extend_from_slice(&[0xff, 0xd0, 0xff, 0xd1, 0xff, 0xd9]),
            }
            ctx.state((kind, huff, n, tail));
            ctx.describe(|| format!("kind {kind} tables {huff}: header {hdr} bytes, data {:02x?}", &m[hdr..]));
            total(ctx, V::Rayon, &m, &Opts::default())
        }));
    }
    {
        // extreme coefficients and quantisers
        models.push(model("extreme coefficients and quantisers", move |ctx| {
            let v = ctx.pick(&ALLV);
            let qv = ctx.pick(&[1u16, 255, 4096, 32767, 65535]);
            let k1 = ctx.choose(64);
            let k2 = if ctx.thorough() { ctx.choose(64) } else { ctx.pick(&[0usize, 1, 8, 9, 35, 63]) };
            let a = ctx.pick(&[32767i16, -32767, 1]);
            let b = ctx.pick(&[32767i16, -32767]);
            let s = ctx.pick(&[1u16, 2, 4, 8]);
            let fill = ctx.flag();
            let mut img = Img::new(0, 8, 8, &[(1, 1)]);
            let mut blk = [if fill { if a > 0 { -32767 } else { 32767 } } else { 0i16 }; 64];
            blk[k1] = a;
            blk[k2] = b;
            blk[0] = blk[0].clamp(-2047, 2047);
            img.comps[0].blocks[0] = blk;
            let bytes = stream(&img, &q_flat(qv), &[Scan::seq(&[0])]);
            ctx.state(&bytes);
            ctx.describe(|| format!("{v:?} q {qv} c[{k1}]={a} c[{k2}]={b} fill {fill} scale {s}/8"));
            total(ctx, v, &bytes, &Opts::scale(s, s))
        }));
        models.push(model("DC predictor wrap-around", move |ctx| {
            // accumulate differences beyond i16 in every process
            let sofn = ctx.pick(&[0u8, 2]);
            let nb = ctx.pick(&[16usize, 17, 33, 64, 70]);
            let up = ctx.flag();
            let al = if sofn == 2 { ctx.pick(&[0u8, 1, 5, 12, 13]) } else { 0 };
            let img = Img::new(sofn, nb * 8, 8, &[(1, 1)]);
            let mut ops = vec![];
            for _ in 0..nb {
                ops.push(Op::Sym(0, 0, 11));
                ops.push(Op::Bits(if up { 2047 } else { 0 }, 11));
                if sofn == 0 {
                    ops.push(Op::Sym(1, 0, 0));
                }
            }
            let s = if sofn == 2 { Scan::prog(&[0], 0, 0, 0, al) } else { Scan::seq(&[0]) };
            let tabs = tables_for(&ops, Huff::Flat);
            let mut m = [SOI.to_vec(), dqt(0, 1, &[65535; 64]), sof(&img)].concat();
            for t in &tabs {
                m.extend(dht(t));
            }
            m.extend(sos(&img, &s));
            m.extend(emit(&ops, &tabs));
            m.extend(EOI);
            let sc = ctx.pick(&[1u16, 2, 4, 8]);
            let v = ctx.pick(&ALLV);
            ctx.state(&m);
            total(ctx, v, &m, &Opts::scale(sc * nb as u16, sc))
        }));
    }
    {
        // progressive: refinement with every legal (al), overflow of coefficients
        models.push(model("successive approximation extremes", move |ctx| {
            let al = ctx.choose(14) as u8;
            let neg = ctx.flag();
            let fill = ctx.choose(4);
            let k = ctx.pick(&[1u8, 32, 63]);
            let img = Img::new(2, 8, 8, &[(1, 1)]);
            let mut m = [SOI.to_vec(), dqt(0, 0, &[255; 64]), sof(&img)].concat();
            // first scan: largest magnitude category the format can express (s = 15 - shifted)
            let s = ctx.range(1, 15) as u8;
            let ops = vec![Op::Sym(1, 0, s), Op::Bits(if neg { 0 } else { (1 << s) - 1 }, s)];
            let tabs = tables_for(&ops, Huff::Flat);
            for t in &tabs {
                m.extend(dht(t));
            }
            m.extend(sos(&img, &Scan::prog(&[0], k, k, 0, al)));
            m.extend(emit(&ops, &tabs));
            // refinements down to zero with constant bits
            let mut a = al;
            while a > 0 {
                let ops = match fill {
                    0 => vec![Op::Sym(1, 0, 0), Op::Bits(1, 1)],
                    1 => vec![Op::Sym(1, 0, 0), Op::Bits(0, 1)],
                    2 => vec![Op::Sym(1, 0, 1), Op::Bits(1, 1), Op::Bits(1, 1)],
                    _ => vec![Op::Sym(1, 0, 0xF0), Op::Bits(1, 1)],
                };
                let tabs = tables_for(&ops, Huff::Flat);
                for t in &tabs {
                    m.extend(dht(t));
                }
                m.extend(sos(&img, &Scan::prog(&[0], k, k, a, a - 1)));
                m.extend(emit(&ops, &tabs));
                a -= 1;
            }
            m.extend(EOI);
            ctx.state(&m);
            total(ctx, V::Rayon, &m, &Opts::default())
        }));
    }
    models.push(model("frame headers of every shape, then every short call history", move |ctx| {
        // the segment is consistent with itself; what follows is a scan, or nothing
        let m = ctx.pick(&[0xC0u8, 0xC1, 0xC2, 0xC3, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF]);
        let prec = ctx.pick(&[0u8, 1, 2, 7, 8, 9, 12, 15, 16, 17, 255]);
        let n = ctx.choose(7);
        let fs = ctx.pick(&[[0x11u8, 0x11], [0x21, 0x11], [0x42, 0x11], [0x11, 0x22], [0x32, 0x21]]);
        let (w, h) = ctx.pick(&[(1u16, 1u16), (9, 17), (0, 5), (5, 0)]);
        let mut b = vec![0xFF, 0xD8, 0xFF, m, 0, (8 + 3 * n) as u8, prec, (h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8, n as u8];
        for c in 0..n {
            b.extend([c as u8 + 1, fs[c.min(1)], 0]);
        }
        if ctx.flag() {
            b.extend(dqt(0, 0, &[1; 64]));
            let t = HTable::build(0, 0, &[0, 1], Huff::Flat);
            b.extend(dht(&t));
            b.extend(dht(&HTable::build(1, 0, &[0, 1], Huff::Flat)));
            b.extend([0xFF, 0xDA, 0, (6 + 2 * n) as u8, n as u8]);
            for c in 0..n {
                b.extend([c as u8 + 1, 0]);
            }
            b.extend(if m == 0xC3 { [1, 0, 0] } else if m == 0xC2 { [0, 0, 0] } else { [0, 63, 0] });
            b.extend([0x12; 8]);
        }
        b.extend(EOI);
        let depth = if ctx.thorough() { 5 } else { 3 };
        let mut acts = vec![];
        for _ in 0..depth {
            acts.push([Act::ReadInfo, Act::Scale(1, 1), Act::Decode][ctx.choose(3)].clone());
            acts.push(Act::Meta);
        }
        ctx.state((&b, acts.len()));
        history(ctx, V::Rayon, &b, &acts)
    }));
    {
        let b = if th { bs.clone() } else { small.clone() };
        models.push(model("every short call history on damaged streams", move |ctx| {
            let base = &b[ctx.choose(b.len())];
            // damage: cut at the start, in the middle or before the end of a segment, or one bit of it flipped there, or the segment lost or doubled
            let i = ctx.choose(base.segs.len());
            let off: usize = base.segs[..i].iter().map(|s| s.len()).sum();
            let l = base.segs[i].len();
            let at = off + ctx.pick(&[0, 1, 3, l / 2, l - 1]).min(l - 1);
            let mut m = base.bytes.clone();
            match ctx.choose(5) {
                0 => m.truncate(at),
                1 => m[at] ^= 1,
                2 => m[at] ^= 0x80,
                3 => {
                    m.drain(off..off + l);
                }
                _ => {
                    let s = base.segs[i].clone();
                    m.splice(off..off, s);
                }
            }
            if area(&m) > 1 << 16 {
                ctx.count("skipped_huge", 1);
                return Ok(());
            }
            let n = if ctx.thorough() { 5 } else { 4 };
            let acts: Vec<Act> = (0..n).flat_map(|_| [[Act::ReadInfo, Act::Scale(1, 1), Act::Scale(65535, 65535), Act::Decode][ctx.choose(4)].clone(), Act::Meta]).collect();
            let v = if ctx.thorough() { ctx.pick(&[V::Rayon, V::Mpsc]) } else { V::Rayon };
            ctx.state((base.name, i, at, m.len()));
            history(ctx, v, &m, &acts)
        }));
    }
    super::spec(
        "all single-byte substitutions, truncations, one-byte insertions/deletions of the base streams; header byte pairs on boundary values; all 2-byte scan bodies x 9 scan kinds x 3 table shapes; extreme coefficients at 1-2 positions; frame headers of every process, precision, 0-6 components and 3 (thorough 5) calls of any kind; 4 (thorough 5) calls of any kind on streams with one damaged segment; on wasm32 9x9 (thorough 19x19) announced sizes up to 65535 x 4 processes x 4 component sets x scales; announced image area <= 2^21 pixels for mutants",
        &["allocation failure for huge announced images is out of scope", "built with overflow checks and debug assertions"],
        models,
    )
}
