use super::bases::*;
use super::*;

pub fn expected(img: &Img, pts: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for i in 0..img.w * img.h {
        for (c, k) in img.comps.iter().enumerate() {
            let s = (k.samples[i] >> pts[c]) << pts[c];
            if img.prec <= 8 {
                o.push(s as u8);
            } else {
                o.extend_from_slice(&s.to_ne_bytes());
            }
        }
    }
    o
}
fn check(ctx: &mut Ctx, v: V, img: &Img, scans: &[Scan], what: &dyn Fn() -> String) -> R {
    let mut pts = [0u8; 4];
    for s in scans {
        for &c in &s.comps {
            pts[c] = s.al;
        }
    }
    let bytes = stream(img, &qts(), scans);
    ctx.state(&bytes);
    ctx.describe(what);
    let o = dec(ctx, v, &bytes, &Opts::default());
    let d = must(&o, &format!("{v:?} {}", what()))?;
    let want = expected(img, &pts);
    ctx.outcome(&d);
    ensure!(d == want, "samples", "{v:?} {}: byte (index, got, expected) {:?}", what(), first_diff(&d, &want));
    Ok(())
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    models.push(model("precision x point transform x predictor x components x groupings x sizes", move |ctx| {
        let prec = ctx.range(2, 16) as u8;
        let pt = ctx.choose(prec as usize) as u8;
        let pred = ctx.range(1, 7) as u8;
        let n = ctx.pick(&[1usize, 3, 4]);
        let parts = ordered_partitions(n);
        let part = ctx.pick(&parts);
        let (w, h) = ctx.pick(if ctx.thorough() { &[(1usize, 1usize), (1, 4), (4, 1), (2, 2), (5, 3), (3, 7), (17, 2), (140, 3)][..] } else { &[(1, 1), (1, 3), (3, 1), (5, 3)][..] });
        if !ctx.thorough() && n == 4 && (w, h) != (5, 3) {
            return Ok(());
        }
        let img = lossless(prec, w, h, n, 7);
        let huff = if (prec + pred) % 2 == 0 { Huff::Flat } else { Huff::Skew };
        let mut scans: Vec<Scan> = part.iter().map(|g| Scan::lossless(g, pred, pt).huff(huff)).collect();
        // other predictors and table slots in the later scans
        for (i, s) in scans.iter_mut().enumerate() {
            s.ss = 1 + (pred - 1 + 3 * i as u8) % 7;
            for k in 0..s.comps.len() {
                s.td[k] = ((i + k) % 4) as u8;
            }
        }
        check(ctx, if pt == 0 { V::Pi } else { V::Rayon }, &img, &scans, &|| format!("{n} x {prec} bits, Pt {pt}, predictor {pred}.., scans {part:?}, {w}x{h}"))
    }));
    models.push(model("different point transform in each scan", move |ctx| {
        let prec = ctx.pick(&[2u8, 5, 8, 9, 12, 16]);
        let img = lossless(prec, 4, 3, 3, 9);
        let pts: Vec<u8> = (0..3).map(|_| ctx.choose(prec.min(4) as usize) as u8).collect();
        let scans: Vec<Scan> = (0..3).map(|c| Scan::lossless(&[c], 1 + ctx.choose(7) as u8, pts[c])).collect();
        check(ctx, V::Rayon, &img, &scans, &|| format!("{prec} bits, Pt {pts:?}, predictors {:?}", scans.iter().map(|s| s.ss).collect::<Vec<_>>()))
    }));
    models.push(model("every 2 bit 2x2 image, every 1x1 image", move |ctx| {
        let one = ctx.flag();
        let pred = ctx.range(1, 7) as u8;
        if one {
            let prec = ctx.range(2, 16) as u8;
            let pt = ctx.pick(&[0u8, 1, prec - 1]);
            let n = 1usize << prec;
            let mut img = lossless(prec, 1, 1, 1, 0);
            let lo = ctx.choose(cdiv(n, 4096));
            for x in lo * 4096..(lo * 4096 + 4096).min(n) {
                img.comps[0].samples[0] = x as u16;
                check(ctx, V::Rayon, &img, &[Scan::lossless(&[0], pred, pt)], &|| format!("1x1 {prec} bits value {x} Pt {pt}"))?;
            }
            return Ok(());
        }
        let mut img = lossless(2, 2, 2, 1, 0);
        let pt = ctx.choose(2) as u8;
        for i in 0..4 {
            img.comps[0].samples[i] = ctx.choose(4) as u16;
        }
        check(ctx, V::Rayon, &img, &[Scan::lossless(&[0], pred, pt)], &|| format!("2x2 {:?} predictor {pred} Pt {pt}", img.comps[0].samples))
    }));
    models.push(model("3x3 neighbourhoods of extreme values", move |ctx| {
        let prec = ctx.pick(if ctx.thorough() { &[3u8, 8, 9, 15, 16][..] } else { &[8u8, 16][..] });
        let pred = ctx.range(1, 7) as u8;
        let m = (1u32 << prec) - 1;
        let vals = [0u16, (m / 2 + 1) as u16, m as u16, (m / 2) as u16];
        let nv = if ctx.thorough() { 4 } else { 3 };
        let mut img = lossless(prec, 3, 3, 1, 0);
        // the first sample and the last column are less interesting: fixed
        for i in 0..9 {
            img.comps[0].samples[i] = vals[if i == 2 { 1 } else { ctx.choose(nv) }];
        }
        check(ctx, V::Rayon, &img, &[Scan::lossless(&[0], pred, 0)], &|| format!("{prec} bits {:?} predictor {pred}", img.comps[0].samples))
    }));
    models.push(model("every difference value", move |ctx| {
        // pairs of horizontally adjacent 16-bit samples with every difference
        let hi = ctx.choose(256) as u32;
        let pred = ctx.pick(&[1u8, 4]);
        let base = ctx.pick(if ctx.thorough() { &[0u16, 0x7fff, 0x8000, 0xffff][..] } else { &[0u16, 0x8000][..] });
        let mut img = lossless(16, 512, 1, 1, 0);
        for i in 0..256 {
            img.comps[0].samples[2 * i] = base;
            img.comps[0].samples[2 * i + 1] = base.wrapping_add((hi << 8 | i as u32) as u16);
        }
        check(ctx, V::Rayon, &img, &[Scan::lossless(&[0], pred, 0)], &|| format!("differences {:#x}.. from {base:#x}", hi << 8))
    }));
    models.push(model("grey and colour sizes", move |ctx| {
        let n = ctx.pick(&[1usize, 3]);
        let prec = ctx.pick(&[8u8, 16]);
        let pred = ctx.pick(&[1u8, 2, 3, 4, 5, 6, 7]);
        let lim = if ctx.thorough() { 40 } else { 12 };
        let (w, h) = (ctx.range(1, lim), ctx.range(1, lim));
        let img = lossless(prec, w, h, n, 11);
        let all: Vec<usize> = (0..n).collect();
        check(ctx, V::Mpsc, &img, &[Scan::lossless(&all, pred, 0)], &|| format!("{n} x {prec} bits {w}x{h} predictor {pred}"))
    }));
    models.push(model("extreme sizes", move |ctx| {
        let (w, h) = ctx.pick(&[(65535usize, 2usize), (2, 65535), (1, 65535), (65535, 1), (300, 300), (257, 256), (1021, 67)]);
        let n = ctx.pick(&[1usize, 3, 4]);
        let prec = ctx.pick(&[8u8, 12]);
        let pred = ctx.pick(&[1u8, 2, 3, 4, 5, 6, 7]);
        if !ctx.thorough() && n == 4 && pred != 7 {
            return Ok(());
        }
        let img = lossless(prec, w, h, n, 11);
        let all: Vec<usize> = (0..n).collect();
        check(ctx, V::Mpsc, &img, &[Scan::lossless(&all, pred, 0)], &|| format!("{n} x {prec} bits {w}x{h} predictor {pred}"))
    }));
    let _ = th;
    super::spec(
        "precision 2..16 x every point transform x predictors 1..7 x all ordered groupings of 1/3/4 components x sizes; every 2-bit 2x2 image; sizes to 65535 in one direction and images of more than 65535 samples; 3x3 images over extreme values; every 16-bit difference",
        &["no subsampling"],
        models,
    )
}
