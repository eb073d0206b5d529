use super::bases::*;
use super::*;
use std::sync::Arc;

const V4: [V; 4] = [V::Rayon, V::Mpsc, V::Pi, V::PiRayon];

/// Largest difference that rounding in the transforms of two builds may cause in an output byte.
fn tolerance(o: &Opts, img: &Img) -> i32 {
    if img.sof == 3 {
        return 0;
    }
    // each build is within 3 levels of the ideal transform; conversion multiplies chroma by up to 1.772
    if o.ct == Some(Ct::None) || img.comps.len() == 1 {
        6
    } else {
        17
    }
}
/// Decode in all four builds; `valid` streams are also compared in their pixels across SIMD and portable code.
fn agree(ctx: &mut Ctx, bytes: &[u8], o: &Opts, tol: Option<i32>, what: &dyn Fn() -> String) -> R {
    let r: Vec<Out> = V4.iter().map(|&v| dec(ctx, v, bytes, o)).collect();
    ctx.outcome(&r[0].res);
    for (v, x) in V4.iter().zip(&r) {
        if let Err(E::Panic(m)) = &x.res {
            return fail("panic", format!("{v:?} {}: {m}", what()));
        }
    }
    for (a, b) in [(0, 1), (2, 3)] {
        let (x, y) = (&r[a], &r[b]);
        if x.res != y.res {
            let d = match (&x.res, &y.res) {
                (Ok(p), Ok(q)) => format!("{:?}", first_diff(p, q)),
                _ => String::new(),
            };
            return fail("threads", format!("{}: {:?} {} / {:?} {} {d}", what(), V4[a], x.brief(), V4[b], y.brief()));
        }
        ensure!(x.scale_ret == y.scale_ret && x.meta == y.meta, "threads-info", "{}: {:?} {:?} {:?} / {:?} {:?} {:?}", what(), V4[a], x.scale_ret, x.meta, V4[b], y.scale_ret, y.meta);
    }
    let (x, y) = (&r[0], &r[2]);
    ensure!(x.scale_ret.as_ref().map(|r| r.as_ref().map_err(|e| e.cat())) == y.scale_ret.as_ref().map(|r| r.as_ref().map_err(|e| e.cat())) && x.meta == y.meta, "portable-info", "{}: SIMD {:?} {:?} / portable {:?} {:?}", what(), x.scale_ret, x.meta, y.scale_ret, y.meta);
    match (&x.res, &y.res) {
        (Ok(p), Ok(q)) => {
            ensure!(p.len() == q.len(), "portable-size", "{}: SIMD {} bytes, portable {} bytes", what(), p.len(), q.len());
            if let Some(t) = tol {
                for (i, (a, b)) in p.iter().zip(q).enumerate() {
                    ensure!((*a as i32 - *b as i32).abs() <= t, "portable-pixels", "{}: byte {i} is {a} with SIMD, {b} without", what());
                }
            }
        }
        (Err(a), Err(b)) => ensure!(a.cat() == b.cat(), "portable-error", "{}: SIMD {a:?} / portable {b:?}", what()),
        _ => return fail("portable-accept", format!("{}: SIMD {} / portable {}", what(), x.brief(), y.brief())),
    }
    Ok(())
}
/// Decode in the builds for other targets and compare with the portable native one: wasm32 (32-bit, no
/// threads) without SIMD must agree exactly, wasm32 with SIMD and the NEON code up to rounding.
fn agree_targets(ctx: &mut Ctx, bytes: &[u8], o: &Opts, tol: Option<i32>, what: &dyn Fn() -> String) -> R {
    let y = dec(ctx, V::Pi, bytes, o);
    ctx.outcome(&y.res);
    let cats = |o: &Out| (o.res.clone().map_err(|e| e.cat()), o.scale_ret.clone().map(|r| r.map_err(|e| e.cat())), o.meta.clone());
    if crate::remote::available() {
        let x = dec(ctx, V::Wasm, bytes, o);
        if let Err(E::Panic(m)) = &x.res {
            return fail("wasm-panic", format!("{}: {m}", what()));
        }
        if cats(&x) != cats(&y) {
            let d = match (&x.res, &y.res) {
                (Ok(p), Ok(q)) => format!("{:?}", first_diff(p, q)),
                _ => String::new(),
            };
            return fail("wasm", format!("{}: wasm32 {} {:?} / native {} {:?} {d}", what(), x.brief(), x.scale_ret, y.brief(), y.scale_ret));
        }
    }
    for v in with_arch(&[]) {
        let z = dec(ctx, v, bytes, o);
        if let Err(E::Panic(m)) = &z.res {
            return fail("target-panic", format!("{v:?} {}: {m}", what()));
        }
        ensure!(cats(&z).1 == cats(&y).1 && z.meta == y.meta, "target-info", "{}: {v:?} {:?} {:?} / native {:?} {:?}", what(), z.scale_ret, z.meta, y.scale_ret, y.meta);
        match (&z.res, &y.res) {
            (Ok(p), Ok(q)) => {
                ensure!(p.len() == q.len(), "target-size", "{}: {v:?} {} bytes, native {} bytes", what(), p.len(), q.len());
                if let Some(t) = tol {
                    for (i, (a, b)) in p.iter().zip(q).enumerate() {
                        ensure!((*a as i32 - *b as i32).abs() <= t, "target-pixels", "{}: byte {i} is {a} with {v:?}, {b} in the portable native build", what());
                    }
                }
            }
            (Err(a), Err(b)) => ensure!(a.cat() == b.cat(), "target-error", "{}: {v:?} {a:?} / native {b:?}", what()),
            _ => return fail("target-accept", format!("{}: {v:?} {} / native {}", what(), z.brief(), y.brief())),
        }
    }
    Ok(())
}
fn scales(img: &Img) -> Vec<Option<(u16, u16)>> {
    let mut v = vec![None];
    if img.sof != 3 {
        for s in [1, 2, 4] {
            if let Some(r) = super::c16::req_for(img.w, img.h, s) {
                v.push(Some(r));
            }
        }
    }
    v
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut b = all_bases();
    b.extend(super::c04::extra_bases());
    let b = Arc::new(b);
    let mut models = vec![];
    models.push(model("every option on valid streams", {
        let b = b.clone();
        move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let scale = ctx.pick(&scales(&base.img));
            let ct = match ctx.choose(10) {
                0 => None,
                k => Some(ALLCT[k - 1]),
            };
            let n = base.img.w * base.img.h * base.img.comps.len();
            let limit = ctx.pick(&[None, Some(n - 1), Some(n), Some(n / 4)]);
            let o = Opts { scale, ct, limit };
            ctx.state((base.name, scale, ct, limit));
            ctx.describe(|| format!("{} {o:?}", base.name));
            agree(ctx, &base.bytes, &o, Some(tolerance(&o, &base.img)), &|| format!("{} {o:?}", base.name))
        }
    }));
    models.push(model("sizes around the parallel threshold", move |ctx| {
        // output widths 120..=136 at every scale
        let s = ctx.pick(&[8usize, 4, 2, 1]);
        let ow = if ctx.thorough() { ctx.range(120, 137) } else { ctx.range(126, 131) };
        let w = if s == 8 { ow } else { ow * 8 / s - ctx.pick(&[0, 8 / s - 1]) };
        let h = if ctx.thorough() { ctx.pick(&[1, 8, 9, 17, 33, 130]) } else { ctx.pick(&[1, 17, 130]) };
        let k = ctx.choose(9);
        let sof = ctx.pick(&[0u8, 2]);
        let f: &[(usize, usize)] = match k {
            0 => &[(1, 1)],
            1 => &[(1, 1); 3],
            2 => &[(2, 1), (1, 1), (1, 1)],
            3 => &[(2, 2), (1, 1), (1, 1)],
            4 => &[(1, 2), (1, 1), (1, 1)],
            5 => &[(4, 1), (1, 1), (2, 1)],
            6 => &[(1, 1); 4],
            7 => &[(2, 2), (1, 1), (1, 1), (2, 2)],
            _ => &[(1, 1), (2, 2), (1, 2)],
        };
        let img = dct(sof, w, h, f, (w + h) as u64);
        let all: Vec<usize> = (0..f.len()).collect();
        let scans = if sof == 0 {
            if ctx.flag() {
                vec![Scan::seq(&all)]
            } else {
                all.iter().rev().map(|&i| Scan::seq(&[i]).ri(if i == 0 { 3 } else { 0 })).collect()
            }
        } else {
            let mut v = vec![Scan::prog(&all, 0, 0, 0, 1)];
            v.extend(all.iter().map(|&i| Scan::prog(&[i], 1, 63, 0, 0)));
            if ctx.flag() {
                v.push(Scan::prog(&all, 0, 0, 1, 0));
            }
            v
        };
        let o = Opts { scale: if s == 8 { None } else { super::c16::req_for(w, h, s) }, ..Default::default() };
        if s != 8 && o.scale.is_none() {
            return Ok(());
        }
        let bytes = stream(&img, &qts(), &scans);
        ctx.state((s, w, h, k, sof, scans.len()));
        ctx.describe(|| format!("{w}x{h} kind {k} SOF{sof} scale {s}/8 {} scans", scans.len()));
        agree(ctx, &bytes, &o, Some(tolerance(&o, &img)), &|| format!("{w}x{h} kind {k} SOF{sof} scale {s}/8, {} scans", scans.len()))
    }));
    models.push(model("every truncation", {
        let b = b.clone();
        move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let n = ctx.choose(base.bytes.len() + 1);
            let scale = if ctx.thorough() { ctx.pick(&scales(&base.img)) } else { None };
            let o = Opts { scale, ..Default::default() };
            ctx.state((base.name, n, scale));
            ctx.describe(|| format!("{} cut to {n} bytes", base.name));
            agree(ctx, &base.bytes[..n], &o, None, &|| format!("{} cut to {n} bytes {o:?}", base.name))
        }
    }));
    models.push(model("single-byte substitutions", {
        let b = b.clone();
        move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let i = ctx.choose(base.bytes.len());
            let x = if ctx.thorough() { 1 + ctx.choose(255) as u8 } else { ctx.pick(&[1u8, 2, 4, 8, 16, 32, 64, 128, 255]) };
            let mut m = base.bytes.clone();
            m[i] ^= x;
            if super::c01::area(&m) > 1 << 18 {
                ctx.count("skipped_huge", 1);
                return Ok(());
            }
            ctx.state((base.name, i, x));
            ctx.describe(|| format!("{} byte {i} ^ {x:#x}", base.name));
            agree(ctx, &m, &Opts::default(), None, &|| format!("{} byte {i} ^ {x:#x}", base.name))
        }
    }));
    models.push(model("a segment removed, repeated or exchanged with the next", {
        let b = b.clone();
        move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let i = ctx.choose(base.segs.len());
            let j = ctx.choose(base.segs.len());
            let mut s = base.segs.clone();
            let k = ctx.choose(3);
            match k {
                0 => s.insert(j, base.segs[i].clone()),
                1 => s.swap(i, j),
                _ => {
                    s.remove(i.max(j));
                    if i != j {
                        s.remove(i.min(j));
                    }
                }
            }
            let m = s.concat();
            ctx.state((base.name, i, j, k));
            ctx.describe(|| format!("{} segments {i}, {j} op {k}", base.name));
            agree(ctx, &m, &Opts::default(), None, &|| format!("{} segments {i}, {j} op {k}", base.name))
        }
    }));
    if !with_arch(&[]).is_empty() {
        models.push(model("other targets: every option on valid streams", {
            let b = b.clone();
            move |ctx| {
                let base = &b[ctx.choose(b.len())];
                let scale = ctx.pick(&scales(&base.img));
                let ct = match ctx.choose(10) {
                    0 => None,
                    k => Some(ALLCT[k - 1]),
                };
                let n = base.img.w * base.img.h * base.img.comps.len();
                let limit = ctx.pick(&[None, Some(n - 1), Some(n)]);
                let o = Opts { scale, ct, limit };
                ctx.state((base.name, scale, ct, limit));
                ctx.describe(|| format!("{} {o:?}", base.name));
                agree_targets(ctx, &base.bytes, &o, Some(tolerance(&o, &base.img)), &|| format!("{} {o:?}", base.name))
            }
        }));
        models.push(model("other targets: every truncation", {
            let b = b.clone();
            move |ctx| {
                let base = &b[ctx.choose(b.len())];
                let n = ctx.choose(base.bytes.len() + 1);
                let o = Opts::default();
                ctx.state((base.name, n));
                ctx.describe(|| format!("{} cut to {n} bytes", base.name));
                agree_targets(ctx, &base.bytes[..n], &o, None, &|| format!("{} cut to {n} bytes", base.name))
            }
        }));
        models.push(model("other targets: single-byte substitutions", {
            let b = b.clone();
            move |ctx| {
                let base = &b[ctx.choose(b.len())];
                let i = ctx.choose(base.bytes.len());
                let x = ctx.pick(if ctx.thorough() { &[1u8, 2, 4, 8, 16, 32, 64, 128, 255][..] } else { &[1u8, 16, 255][..] });
                let mut m = base.bytes.clone();
                m[i] ^= x;
                if super::c01::area(&m) > 1 << 18 {
                    ctx.count("skipped_huge", 1);
                    return Ok(());
                }
                ctx.state((base.name, i, x));
                ctx.describe(|| format!("{} byte {i} ^ {x:#x}", base.name));
                agree_targets(ctx, &m, &Opts::default(), None, &|| format!("{} byte {i} ^ {x:#x}", base.name))
            }
        }));
        models.push(model("other targets: sizes and layouts", move |ctx| {
            let w = ctx.range(1, if ctx.thorough() { 67 } else { 35 });
            let h = ctx.pick(&[1usize, 7, 16, 19, 33]);
            let k = ctx.choose(6);
            let sof = ctx.pick(&[0u8, 2]);
            let f: &[(usize, usize)] = match k {
                0 => &[(1, 1)],
                1 => &[(1, 1); 3],
                2 => &[(2, 1), (1, 1), (1, 1)],
                3 => &[(2, 2), (1, 1), (1, 1)],
                4 => &[(1, 2), (1, 1), (1, 1)],
                _ => &[(1, 1); 4],
            };
            let img = dct(sof, w, h, f, (w * 3 + h) as u64);
            let all: Vec<usize> = (0..f.len()).collect();
            let scans = if sof == 0 { vec![Scan::seq(&all)] } else { std::iter::once(Scan::prog(&all, 0, 0, 0, 0)).chain(all.iter().map(|&i| Scan::prog(&[i], 1, 63, 0, 0))).collect() };
            let s = ctx.pick(&scales(&img));
            let o = Opts { scale: s, ..Default::default() };
            let bytes = stream(&img, &qts(), &scans);
            ctx.state((w, h, k, sof, s));
            ctx.describe(|| format!("{w}x{h} kind {k} SOF{sof} scale {s:?}"));
            agree_targets(ctx, &bytes, &o, Some(tolerance(&o, &img)), &|| format!("{w}x{h} kind {k} SOF{sof} {o:?}"))
        }));
    }
    let _ = th;
    super::spec(
        "wasm32 with and without SIMD and the NEON code against the portable native build: every option, truncation, 3 (thorough 9) substitutions of every byte, widths 1..35 x 5 heights x 6 layouts; 4 native builds (SIMD/portable x pool/threads) x ~24 valid streams x 4 scales x 10 transforms x 4 limits; output widths 126..131 (thorough 120..137) at each scale x 9 component layouts x sequential/progressive; every truncation; 9 (thorough 255) substitutions of every byte; every segment copied, exchanged or removed",
        &["pixels of the portable and SIMD builds are compared only for undamaged streams, within twice the transform tolerance", "the wasm32 builds run in node; the NEON code runs with each instruction replaced by its lane-by-lane definition (variants/neon/shim.rs)"],
        models,
    )
}
