use super::bases::*;
use super::*;
use crate::remote::{has, Kind};
use std::sync::Arc;

/// Decode under a memory checker; what it returns must be what the same code returns without.
fn clean(ctx: &mut Ctx, v: V, bytes: &[u8], o: &Opts, what: &dyn Fn() -> String) -> R {
    let x = dec(ctx, v, bytes, o);
    ctx.outcome(&x.res);
    if let Err(E::Panic(m)) = &x.res {
        if m.starts_with("the process died") {
            return fail("memory", format!("{v:?} {}: {m}", what()));
        }
        return Ok(()); // C01 judges panics
    }
    let y = dec(ctx, if matches!(v, V::AsanNeon | V::MiriNeon) { V::Neon } else { V::Mpsc }, bytes, o);
    if matches!(y.res, Err(E::Panic(_))) {
        return Ok(());
    }
    match (&x.res, &y.res) {
        (Ok(a), Ok(b)) => ensure!(a == b, "pixels", "{v:?} {}: differs from an unchecked decode at {:?}", what(), first_diff(a, b)),
        (a, b) => ensure!(a.is_ok() == b.is_ok(), "outcome", "{v:?} {}: {} / unchecked {}", what(), x.brief(), y.brief()),
    }
    Ok(())
}
fn layout(k: usize) -> &'static [(usize, usize)] {
    [&[(1, 1)][..], &[(1, 1); 3], &[(2, 1), (1, 1), (1, 1)], &[(2, 2), (1, 1), (1, 1)], &[(1, 2), (1, 1), (1, 1)], &[(1, 1); 4], &[(4, 1), (1, 1), (1, 1)], &[(2, 2), (1, 1), (1, 1), (2, 2)], &[(1, 1), (2, 1), (1, 2)]][k]
}
fn coded(sof: u8, w: usize, h: usize, k: usize, seed: u64) -> (Img, Vec<u8>) {
    let f = layout(k);
    let img = dct(sof, w, h, f, seed);
    let all: Vec<usize> = (0..f.len()).collect();
    let scans = if sof == 2 { std::iter::once(Scan::prog(&all, 0, 0, 0, 0)).chain(all.iter().map(|&i| Scan::prog(&[i], 1, 63, 0, 0))).collect() } else { vec![Scan::seq(&all)] };
    let b = stream(&img, &qts(), &scans);
    (img, b)
}
fn asan() -> Vec<V> {
    [(V::Asan, true), (V::AsanNeon, has(Kind::AsanNeon) && NEON)].iter().filter(|x| x.1).map(|x| x.0).collect()
}
fn miri() -> Vec<V> {
    [(V::Miri, true), (V::MiriNeon, has(Kind::MiriNeon) && NEON)].iter().filter(|x| x.1).map(|x| x.0).collect()
}
fn cts(n: usize) -> &'static [Option<Ct>] {
    match n {
        1 => &[None],
        3 => &[None, Some(Ct::Rgb), Some(Ct::None)],
        _ => &[None, Some(Ct::Ycck), Some(Ct::None)],
    }
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    let mut b = all_bases();
    b.extend(super::c04::extra_bases());
    let b = Arc::new(b);
    // the slow ones first
    models.push(model("Miri: every line length", move |ctx| {
        let w = ctx.range(1, if ctx.thorough() { 66 } else { 34 });
        let v = ctx.pick(&miri());
        let h = if ctx.thorough() { ctx.pick(&[1usize, 9]) } else { 1 };
        let (_, bytes) = coded(0, w, h, 1, w as u64);
        ctx.state((w, h, v));
        ctx.describe(|| format!("{w}x{h} {v:?}"));
        ctx.stream(&bytes);
        clean(ctx, v, &bytes, &Opts::default(), &|| format!("{w}x{h}"))
    }));
    models.push(model("Miri: every layout, scale and process", move |ctx| {
        let k = ctx.choose(9);
        let (w, h) = ctx.pick(if ctx.thorough() { &[(1usize, 1usize), (8, 8), (17, 9), (31, 17)][..] } else { &[(9, 2)] });
        let s = ctx.pick(&[8usize, 4, 1]);
        let sof = ctx.pick(&[0u8, 2]);
        let v = ctx.pick(&miri());
        let (img, bytes) = coded(sof, w, h, k, 3);
        if !ctx.thorough() && (sof == 2) != (s == 4) {
            return Ok(());
        }
        let scale = if s == 8 { None } else { super::c16::req_for(img.w, img.h, s) };
        ctx.state((k, w, h, s, sof, v));
        ctx.describe(|| format!("{w}x{h} layout {k} SOF{sof} scale {s}/8 {v:?}"));
        ctx.stream(&bytes);
        clean(ctx, v, &bytes, &Opts { scale, ..Default::default() }, &|| format!("{w}x{h} layout {k} SOF{sof} scale {s}/8"))
    }));
    if th {
        models.push(model("Miri: boundary substitutions in the headers", {
            let b = Arc::new(all_bases().into_iter().filter(|x| x.img.w * x.img.h <= 300).collect::<Vec<_>>());
            move |ctx| {
                let base = &b[ctx.choose(b.len())];
                let i = ctx.choose(base.first_scan_data());
                let x = ctx.pick(&[0u8, 1, 255]);
                let mut m = base.bytes.clone();
                m[i] = x;
                if super::c01::area(&m) > 1 << 10 {
                    ctx.count("skipped_huge", 1);
                    return Ok(());
                }
                ctx.state((base.name, i, x));
                ctx.describe(|| format!("{} byte {i} = {x:#x}", base.name));
                ctx.stream(&m);
                clean(ctx, V::Miri, &m, &Opts::default(), &|| format!("{} byte {i} = {x:#x}", base.name))
            }
        }));
    }
    models.push(model("every size, layout, scale and transform", move |ctx| {
        let k = ctx.choose(9);
        let w = ctx.range(1, if ctx.thorough() { 140 } else { 50 });
        let h = ctx.pick(&[1usize, 8, 17]);
        let (img, bytes) = coded(0, w, h, k, (w * 5 + h) as u64);
        let s = ctx.pick(&[8usize, 4, 2, 1]);
        let ct = ctx.pick(cts(layout(k).len()));
        let v = ctx.pick(&asan());
        let scale = if s == 8 { None } else { super::c16::req_for(img.w, img.h, s) };
        if (s != 8 && scale.is_none()) || (v == V::AsanNeon && (s != 8 && s != 1)) {
            return Ok(());
        }
        ctx.state((k, w, h, s, ct, v));
        ctx.describe(|| format!("{w}x{h} layout {k} scale {s}/8 {ct:?} {v:?}"));
        ctx.stream(&bytes);
        clean(ctx, v, &bytes, &Opts { scale, ct, limit: None }, &|| format!("{w}x{h} layout {k} scale {s}/8 {ct:?}"))
    }));
    models.push(model("sizes around the pool threshold", move |ctx| {
        let k = ctx.choose(9);
        let w = ctx.pick(if ctx.thorough() { &[120usize, 127, 128, 129, 130, 135, 136, 137, 1000][..] } else { &[128, 129, 135, 136] });
        let h = ctx.pick(&[127usize, 129, 144]);
        let sof = ctx.pick(&[0u8, 2]);
        let (_, bytes) = coded(sof, w, h, k, 77);
        let ct = ctx.pick(cts(layout(k).len()));
        ctx.state((k, w, h, sof, ct));
        ctx.describe(|| format!("{w}x{h} layout {k} SOF{sof} {ct:?}"));
        clean(ctx, V::Asan, &bytes, &Opts { ct, ..Default::default() }, &|| format!("{w}x{h} layout {k} SOF{sof} {ct:?}"))
    }));
    models.push(model("every option on valid streams", {
        let b = b.clone();
        move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let s = ctx.pick(&[8usize, 4, 2, 1]);
            let ct = match ctx.choose(10) {
                0 => None,
                k => Some(ALLCT[k - 1]),
            };
            let v = ctx.pick(&asan());
            let scale = if s == 8 || base.img.sof == 3 { None } else { super::c16::req_for(base.img.w, base.img.h, s) };
            let o = Opts { scale, ct, limit: None };
            ctx.state((base.name, s, ct, v));
            ctx.describe(|| format!("{} {o:?} {v:?}", base.name));
            clean(ctx, v, &base.bytes, &o, &|| format!("{} {o:?}", base.name))
        }
    }));
    models.push(model("every truncation", {
        let b = b.clone();
        move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let n = ctx.choose(base.bytes.len() + 1);
            ctx.state((base.name, n));
            ctx.describe(|| format!("{} cut to {n} bytes", base.name));
            clean(ctx, V::Asan, &base.bytes[..n], &Opts::default(), &|| format!("{} cut to {n} bytes", base.name))
        }
    }));
    models.push(model("byte substitutions", {
        let b = b.clone();
        move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let i = ctx.choose(base.bytes.len());
            let x = if ctx.thorough() { ctx.choose(256) as u8 } else { ctx.pick(&[0u8, 1, 2, 16, 17, 255]) };
            let mut m = base.bytes.clone();
            m[i] = x;
            if super::c01::area(&m) > 1 << 18 {
                ctx.count("skipped_huge", 1);
                return Ok(());
            }
            let v = if ctx.thorough() { ctx.pick(&asan()) } else { V::Asan };
            ctx.state((base.name, i, x, v));
            ctx.describe(|| format!("{} byte {i} = {x:#x} {v:?}", base.name));
            ctx.stream(&m);
            clean(ctx, v, &m, &Opts::default(), &|| format!("{} byte {i} = {x:#x}", base.name))
        }
    }));
    super::spec(
        "under AddressSanitizer (SSSE3 with the pool, NEON code): widths 1..50 (thorough 140) x 3 heights x 9 layouts x 4 scales x 3 transforms; sizes around the pool threshold; ~30 base streams x scales x 9 transforms; every truncation; 6 (thorough all) substitutions of every byte. In Miri (SSSE3 with helper threads, NEON code): line lengths 1..34 (thorough 66), 9 layouts x scales x processes (thorough: 4 sizes, and header substitutions)",
        &["AddressSanitizer sees accesses outside allocations, Miri also those outside the slice a pointer was made from, uninitialised reads and data races", "the NEON code runs with each instruction replaced by its lane-by-lane definition"],
        models,
    )
}
