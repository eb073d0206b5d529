use super::bases::*;
use super::*;
use std::sync::Arc;

/// Size of the buffer that decoding at scale s/8 returns.
fn bytes_of(img: &Img, s: usize) -> usize {
    let (w, h) = if img.sof == 3 { (img.w, img.h) } else { (cdiv(img.w * s, 8), cdiv(img.h * s, 8)) };
    w * h * img.comps.len() * if img.sof == 3 && img.prec > 8 { 2 } else { 1 }
}
/// Every quantity that a wrong check could compare with the limit.
fn candidates(img: &Img) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 4, 255, 256, 65535, 65536, 1 << 31, (1 << 31) - 1, u32::MAX as usize, u32::MAX as usize + 1, isize::MAX as usize, usize::MAX - 1, usize::MAX];
    let n = img.comps.len();
    for s in [1usize, 2, 4, 8] {
        let (w, h) = (cdiv(img.w * s, 8), cdiv(img.h * s, 8));
        let (mx, my) = img.mcus();
        let (pw, ph) = (mx * img.hmax() * s, my * img.vmax() * s);
        for a in [w * h, w * h * n, w * h * n * 2, pw * ph, pw * ph * n, img.comps.iter().enumerate().map(|(i, _)| img.csize(i, s)).map(|(a, b)| a * b).sum(), w, h, w * n] {
            v.extend([a.saturating_sub(1), a, a + 1]);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn request(img: &Img, s: usize) -> Option<(u16, u16)> {
    if s == 8 {
        None
    } else {
        super::c16::req_for(img.w, img.h, s)
    }
}
fn check(ctx: &mut Ctx, v: V, name: &str, bytes: &[u8], img: &Img, s: usize, limit: usize, full: &Out, what: &str) -> R {
    let need = bytes_of(img, s);
    let o = dec(ctx, v, bytes, &Opts { scale: request(img, s), ct: None, limit: Some(limit) });
    ctx.outcome((limit >= need, &o.res));
    if limit >= need {
        ensure!(o.res == full.res, "refused", "{v:?} {name} {what}: needs {need} bytes, limit {limit}: {} / without limit {}", o.brief(), full.brief());
        ensure!(o.meta == full.meta, "info", "{v:?} {name} {what}: limit {limit} changes the metadata");
    } else {
        ensure!(matches!(o.res, Err(E::Format(_))), "accepted", "{v:?} {name} {what}: needs {need} bytes, limit {limit}: {}", o.brief());
    }
    Ok(())
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    let mut b = all_bases();
    b.extend(super::c04::extra_bases());
    let b = Arc::new(b);
    // the images, without limit, at each scale
    let full: Arc<Vec<Vec<Vec<Out>>>> = Arc::new(
        b.iter()
            .map(|x| {
                ALLV.iter()
                    .map(|&v| {
                        [1usize, 2, 4, 8]
                            .iter()
                            .map(|&s| {
                                decode(v, &x.bytes, &Opts { scale: request(&x.img, s), ct: None, limit: None })
                            })
                            .collect()
                    })
                    .collect()
            })
            .collect(),
    );
    models.push(model("limits around every candidate size", {
        let (b, full) = (b.clone(), full.clone());
        move |ctx| {
            let i = ctx.choose(b.len());
            let vi = ctx.choose(3);
            let si = ctx.choose(4);
            let s = [1usize, 2, 4, 8][si];
            let c = candidates(&b[i].img);
            let limit = ctx.pick(&c);
            ctx.state((i, vi, s, limit));
            ctx.describe(|| format!("{} {:?} scale {s}/8 limit {limit}", b[i].name, ALLV[vi]));
            must(&full[i][vi][si], b[i].name)?;
            check(ctx, ALLV[vi], b[i].name, &b[i].bytes, &b[i].img, s, limit, &full[i][vi][si], &format!("scale {s}/8"))
        }
    }));
    models.push(model("every limit up to the size, small images", move |ctx| {
        let w = if ctx.thorough() { ctx.range(1, 9) } else { ctx.range(1, 5) };
        let h = ctx.range(1, 4);
        let kind = ctx.choose(9);
        let img = match kind {
            0 => dct(0, w, h, &[(1, 1)], 1),
            1 => dct(0, w, h, &[(2, 2), (1, 1), (1, 1)], 1),
            2 => dct(1, w, h, &[(1, 1); 4], 1),
            3 => dct(2, w, h, &[(1, 1)], 1),
            4 => lossless(8, w, h, 1, 1),
            5 => lossless(9, w, h, 1, 1),
            6 => lossless(5, w, h, 3, 1),
            7 => lossless(16, w, h, 3, 1),
            _ => lossless(12, w, h, 4, 1),
        };
        let all: Vec<usize> = (0..img.comps.len()).collect();
        let scans = match img.sof {
            2 => vec![Scan::prog(&all, 0, 0, 0, 0), Scan::prog(&[0], 1, 63, 0, 0)],
            3 => vec![Scan::lossless(&all, 1, 0)],
            _ => vec![Scan::seq(&all)],
        };
        let bytes = stream(&img, &qts(), &scans);
        let s = if kind < 4 { ctx.pick(&[8usize, 4, 2, 1]) } else { 8 };
        if s != 8 && request(&img, s).is_none() {
            return Ok(()); // no request selects this factor
        }
        let need = bytes_of(&img, s);
        let v = ctx.pick(&ALLV);
        let limit = ctx.range(0, need + 2);
        ctx.state((w, h, kind, s, limit, v));
        let full = decode(v, &bytes, &Opts { scale: request(&img, s), ct: None, limit: None });
        ensure!(full.res.as_ref().map(|d| d.len()) == Ok(need), "error", "kind {kind} {w}x{h} scale {s}: {}", full.brief());
        check(ctx, v, "small", &bytes, &img, s, limit, &full, &format!("kind {kind} {w}x{h} scale {s}/8"))
    }));
    models.push(model("limits set, replaced and scaled in every order", move |ctx| {
        let i = ctx.choose(b.len());
        let img = &b[i].img;
        let v = ctx.pick(&[V::Mpsc, V::Pi]);
        let n = if ctx.thorough() { 5 } else { 4 };
        let mut limit = usize::MAX;
        let mut s = 8;
        let mut acts = vec![];
        for _ in 0..n {
            match ctx.choose(8) {
                0 => acts.push(Act::ReadInfo),
                k @ 1..=2 => {
                    s = [1, 4][k - 1];
                    let (w, h) = request(img, s).unwrap();
                    acts.push(Act::Scale(w, h));
                }
                3 => {
                    s = 8;
                    acts.push(Act::Scale(65535, 65535));
                }
                k => {
                    limit = [bytes_of(img, 8), bytes_of(img, 4), bytes_of(img, 1), bytes_of(img, 1) - 1][k - 4];
                    acts.push(Act::SetLimit(limit));
                }
            }
        }
        acts.push(Act::Decode);
        ctx.state((i, &acts, v));
        ctx.describe(|| format!("{} {v:?} {acts:?}", b[i].name));
        ctx.stream(&b[i].bytes);
        ctx.trace();
        let r = session(v, &mut SliceReader::new(&b[i].bytes), &acts);
        let need = bytes_of(img, s);
        match r.last() {
            Some(Res::Data(Ok(d))) => {
                ensure!(d.len() == need && need <= limit, "accepted", "{v:?} {} {acts:?}: {} bytes returned, {need} expected, limit {limit}", b[i].name, d.len())
            }
            Some(Res::Data(Err(E::Format(_)))) => ensure!(need > limit, "refused", "{v:?} {} {acts:?}: {:?} although {need} <= {limit}", b[i].name, r.last()),
            x => return fail("error", format!("{v:?} {} {acts:?}: {x:?}", b[i].name)),
        }
        Ok(())
    }));
    let _ = th;
    super::spec(
        "~24 base streams (all processes, 1, 3, 4 components, 8 and 16 bit, narrow and wide) x 4 scales x 3 builds x every size a wrong formula could yield, each -1, 0, +1, and powers of two; every limit 0..size+2 for images up to 5x4 (thorough 9x4) x 9 kinds; all sequences of 4 (5) limit/scale calls",
        &["sizes near 2^32 bytes are covered only as limits, not as images"],
        models,
    )
}
