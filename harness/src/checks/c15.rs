use super::bases::*;
use super::*;
use crate::refimg::*;

/// DC-only blocks: at scale 1/8 the samples are exactly arbitrary, at full size flat 8x8 areas.
/// Blocks outside the component's real size hold conspicuous other values.
fn plane_img(sofn: u8, w: usize, h: usize, f: &[(usize, usize)], s: usize, val: &dyn Fn(usize, usize, usize) -> u8) -> Img {
    let mut img = Img::new(sofn, w, h, f);
    for ci in 0..f.len() {
        let (cw, ch) = img.csize(ci, s);
        let (bw, bh) = (cdiv(cw, s), cdiv(ch, s));
        let c = &mut img.comps[ci];
        let pw = c.pw;
        for (i, b) in c.blocks.iter_mut().enumerate() {
            let (x, y) = (i % pw, i / pw);
            let v = if x < bw && y < bh { val(ci, x, y) } else { if (x + y) % 2 == 0 { 255 } else { 0 } };
            b[0] = v as i16 - 128;
        }
    }
    img
}
fn run(ctx: &mut Ctx, v: V, img: &Img, s: usize, what: &dyn Fn() -> String) -> R {
    let n = img.comps.len();
    let f: Vec<(usize, usize)> = img.comps.iter().map(|c| (c.h, c.v)).collect();
    let all: Vec<usize> = (0..n).collect();
    let q = q_flat(8);
    let scans: Vec<Scan> = if legal_group(img, &all) { vec![if img.sof == 2 { Scan::prog(&all, 0, 0, 0, 0) } else { Scan::seq(&all) }] } else { all.iter().map(|&c| if img.sof == 2 { Scan::prog(&[c], 0, 0, 0, 0) } else { Scan::seq(&[c]) }).collect() };
    let bytes = stream(img, &q, &scans);
    ctx.state((&bytes, s, v));
    ctx.describe(what);
    let (ow, oh) = out_size(img, s);
    let scale = if s == 8 {
        None
    } else {
        match super::c16::req_for(img.w, img.h, s) {
            Some(r) => Some(r),
            None => return Ok(()), // no request selects this factor
        }
    };
    let o = dec_raw(ctx, v, &bytes, n, scale);
    if !integer_ratios(&f) {
        if ow == 1 || oh == 1 {
            return Ok(()); // a single row or column needs no interpolation: either answer is fine
        }
        ensure!(matches!(&o.res, Err(E::Unsupported(k)) if k == "NonIntegerSubsamplingRatio"), "non-integer", "{v:?} {}: {}", what(), o.brief());
        return Ok(());
    }
    let d = must(&o, &format!("{v:?} {}", what()))?;
    ctx.outcome(&d);
    let pl = planes(img, &q, s);
    let e = interleaved(img, &pl, s, false);
    let a = interleaved(img, &pl, s, true);
    ensure!(d.len() == e.len(), "size", "{v:?} {}: {} bytes instead of {}", what(), d.len(), e.len());
    let (m, at) = max_dev2(&d, &e, &a);
    let (px, c) = (at / n, at % n);
    ensure!(m <= 1.0, "register", "{v:?} {}: component {c} at ({}, {}) is {} instead of {:.2} (source {:?} samples {:?})", what(), px % ow, px / ow, d[at], e[at], (pl[c].w, pl[c].h), &pl[c].d[..pl[c].d.len().min(12)]);
    Ok(())
}
fn noise(c: usize, x: usize, y: usize) -> u8 {
    mix(c as u64 + 1, x as u64, y as u64) as u8
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    let all: Vec<(usize, usize)> = (1..=4).flat_map(|h| (1..=4).map(move |v| (h, v))).collect();
    let a1 = all.clone();
    models.push(model("every factor triple", move |ctx| {
        let f = vec![ctx.pick(&a1), ctx.pick(&a1), ctx.pick(&a1)];
        let s = ctx.pick(if ctx.thorough() { &[8usize, 4, 2, 1][..] } else { &[8, 1][..] });
        let (w, h) = ctx.pick(&[(43usize, 29usize), (64, 8), (9, 100)]);
        let img = plane_img(0, w, h, &f, s, &noise);
        let v = if ctx.thorough() { ctx.pick(&[V::Rayon, V::Mpsc]) } else { V::Rayon };
        run(ctx, v, &img, s, &|| format!("{f:?} {w}x{h} scale {s}/8"))
    }));
    let a2 = all.clone();
    models.push(model("every factor pair x output size (1/8)", move |ctx| {
        let f0 = ctx.pick(&a2);
        let f1 = ctx.pick(&a2);
        let lim = if ctx.thorough() { 26 } else { 11 };
        let (ow, oh) = (ctx.range(1, lim), ctx.range(1, lim));
        // every residue of the full size modulo 8 that gives this output size
        let cut = ctx.pick(if ctx.thorough() { &[0usize, 1, 3, 7][..] } else { &[0, 5][..] });
        let (w, h) = (ow * 8 - cut, oh * 8 - (cut * 3) % 8);
        let f = vec![f0, f1, f0];
        if !integer_ratios(&f) {
            return Ok(());
        }
        let img = plane_img(0, w, h, &f, 1, &noise);
        run(ctx, V::Rayon, &img, 1, &|| format!("{f:?} {w}x{h} scale 1/8"))
    }));
    models.push(model("common factors x every full-size dimension x scale x build", move |ctx| {
        let f: Vec<(usize, usize)> = ctx.pick(&[
            vec![(2, 1), (1, 1), (1, 1)],
            vec![(1, 2), (1, 1), (1, 1)],
            vec![(2, 2), (1, 1), (1, 1)],
            vec![(2, 2), (2, 1), (1, 2)],
            vec![(4, 1), (1, 1), (2, 1)],
            vec![(3, 1), (1, 1), (1, 1)],
            vec![(1, 1), (1, 1), (2, 2)],
            vec![(2, 2), (1, 1), (1, 1), (2, 2)],
        ]);
        let (lw, lh) = if ctx.thorough() { (50, 35) } else { (34, 18) };
        let (w, h) = (ctx.range(1, lw), ctx.range(1, lh));
        let s = ctx.pick(&[8usize, 4, 2, 1]);
        let v = ctx.pick(&ALLV);
        let img = plane_img(if (w + h) % 3 == 0 { 2 } else { 0 }, w, h, &f, s, &noise);
        run(ctx, v, &img, s, &|| format!("{f:?} {w}x{h} scale {s}/8"))
    }));
    models.push(model("wide lines in the parallel builds", move |ctx| {
        let f: Vec<(usize, usize)> = ctx.pick(&[vec![(2, 1), (1, 1), (1, 1)], vec![(1, 2), (1, 1), (1, 1)], vec![(2, 2), (1, 1), (1, 1)], vec![(4, 2), (1, 2), (2, 1)], vec![(1, 1), (2, 1), (1, 1), (1, 1)]]);
        let w = ctx.pick(if ctx.thorough() { &[129usize, 130, 131, 136, 137, 143, 144, 145, 159, 160, 161, 255, 257][..] } else { &[129, 137, 144, 161][..] });
        let h = ctx.pick(&[1usize, 8, 17, 31]);
        let s = ctx.pick(&[8usize, 4, 1]);
        let v = ctx.pick(&ALLV);
        let (w, h) = (w * 8 / s, h * 8 / s);
        let img = plane_img(0, w, h, &f, s, &noise);
        run(ctx, v, &img, s, &|| format!("{f:?} {w}x{h} scale {s}/8"))
    }));
    models.push(model("all pairs of neighbouring sample values", move |ctx| {
        // horizontally, vertically: each (near, far) pair of values; 2x2: an alphabet of 7 values
        let kind = ctx.choose(3);
        let a = ctx.choose(256) as u8;
        let f = match kind {
            0 => vec![(2, 1), (1, 1), (1, 1)],
            1 => vec![(1, 2), (1, 1), (1, 1)],
            _ => vec![(2, 2), (1, 1), (1, 1)],
        };
        let vals = [0u8, 1, 2, 3, 127, 254, 255];
        let b = vals[a as usize % 7];
        let (ow, oh) = match kind {
            0 => (1024, 1),
            1 => (1, 1024),
            _ => (28, 28),
        };
        if kind == 2 && a >= 49 {
            return Ok(());
        }
        let val = move |c: usize, x: usize, y: usize| -> u8 {
            match (c, kind) {
                (0, _) => 7,
                (_, 0) => if x % 2 == 0 { a } else { (x / 2) as u8 },
                (_, 1) => if y % 2 == 0 { a } else { (y / 2) as u8 },
                _ => if x % 2 == 0 && y % 2 == 0 { vals[a as usize / 7] } else if x % 2 == 1 && y % 2 == 1 { b } else { vals[(x + y * 3 + c) % 7] },
            }
        };
        let img = plane_img(0, ow * 8, oh * 8, &f, 1, &val);
        let v = if a % 2 == 0 { V::Rayon } else { V::Pi };
        run(ctx, v, &img, 1, &|| format!("{f:?} near value {a}"))
    }));
    models.push(model("impulse at every source position", move |ctx| {
        let f: Vec<(usize, usize)> = ctx.pick(&[vec![(2, 1), (1, 1), (1, 1)], vec![(1, 2), (1, 1), (1, 1)], vec![(2, 2), (1, 1), (1, 1)], vec![(4, 4), (1, 1), (2, 2)], vec![(3, 3), (1, 1), (3, 1)], vec![(4, 2), (1, 1), (2, 1)]]);
        let (ow, oh) = ctx.pick(&[(9usize, 7usize), (8, 8), (2, 3), (5, 2)]);
        let (px, py) = (ctx.choose(5), ctx.choose(4));
        let inv = ctx.flag();
        let img = plane_img(0, ow * 8, oh * 8, &f, 1, &move |_, x, y| if (x == px && y == py) != inv { 255 } else { 0 });
        run(ctx, V::Mpsc, &img, 1, &|| format!("{f:?} {ow}x{oh} impulse at ({px}, {py}) inverted {inv}"))
    }));
    let _ = th;
    super::spec(
        "all 4096 sampling factor triples x 3 sizes x 2 scales (thorough 4); all integer-ratio factor pairs x output sizes 1..11 (thorough 26) squared; common factors x full sizes 1..34 x 1..18 x 4 scales x 3 builds; all 65536 pairs of neighbouring samples; padding blocks hold extreme values",
        &["tolerance 1 level (rounding of the interpolation)", "mixed ratios (2 on one axis, 3 or 4 on the other): covering sample, or linear on the axis with factor 2, are both accepted", "outputs of one row or column: non-integer ratios may be accepted"],
        models,
    )
}
