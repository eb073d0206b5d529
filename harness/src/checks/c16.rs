use super::bases::*;
use super::*;
use std::sync::Arc;

/// The factor (in eighths) that the property demands.
pub fn factor(w: usize, h: usize, rw: usize, rh: usize) -> usize {
    for s in [1, 2, 4] {
        if cdiv(w * s, 8) >= rw || cdiv(h * s, 8) >= rh {
            return s;
        }
    }
    8
}
pub fn size(w: usize, h: usize, s: usize) -> (u16, u16) {
    (cdiv(w * s, 8) as u16, cdiv(h * s, 8) as u16)
}
/// A request that selects the factor s/8 for this image, if there is one.
pub fn req_for(w: usize, h: usize, s: usize) -> Option<(u16, u16)> {
    let (ow, oh) = size(w, h, s);
    [(ow, oh), (ow, 65535), (65535, oh), (65535, 65535)].into_iter().find(|r| factor(w, h, r.0 as usize, r.1 as usize) == s)
}
fn header(sofn: u8, w: usize, h: usize, n: usize) -> Vec<u8> {
    let mut b = SOI.to_vec();
    let mut p = vec![8, (h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8, n as u8];
    for i in 0..n {
        p.extend_from_slice(&[i as u8 + 1, if i == 0 { 0x22 } else { 0x11 }, 0]);
    }
    b.extend(seg(0xC0 + sofn, &p));
    b
}
/// All requests on one decoder, one after the other, each followed by a look at the info.
fn requests(ctx: &mut Ctx, v: V, bytes: &[u8], w: usize, h: usize, lossless: bool, rq: &[(u16, u16)]) -> R {
    let mut acts = vec![];
    for &(a, b) in rq {
        acts.push(Act::Scale(a, b));
        acts.push(Act::Meta);
    }
    ctx.stream(bytes);
    ctx.trace();
    ctx.count("scale_calls", rq.len() as u64);
    let rs = session(v, &mut SliceReader::new(bytes), &acts);
    for (i, &(a, b)) in rq.iter().enumerate() {
        let s = if lossless { 8 } else { factor(w, h, a as usize, b as usize) };
        let want = size(w, h, s);
        let got = rs.get(2 * i);
        ensure!(got == Some(&Res::Dims(Ok(want))), "scale", "{v:?} {w}x{h} lossless {lossless}: scale({a}, {b}) as request {i} returned {got:?}, expected {want:?}");
        let info = match rs.get(2 * i + 1) {
            Some(Res::Meta(m)) => m.info,
            x => return fail("info", format!("{v:?}: {x:?}")),
        };
        ensure!(matches!(info, Some(i) if (i.w, i.h) == want), "info", "{v:?} {w}x{h}: after scale({a}, {b}) the info is {info:?}, expected {want:?}");
    }
    Ok(())
}
/// Requests around every threshold of a dimension.
fn near(d: usize) -> Vec<u16> {
    let mut v = vec![0usize, 1, 65535];
    for s in [1, 2, 4, 8] {
        let t = cdiv(d * s, 8);
        v.extend([t - 1, t, t + 1]);
    }
    v.retain(|&x| x <= 65535);
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as u16).collect()
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    models.push(model("small sizes x every request", move |ctx| {
        let lim = if ctx.thorough() { 48 } else { 26 };
        let (w, h) = (ctx.range(1, lim), ctx.range(1, lim));
        let sofn = ctx.pick(&[0u8, 2, 3]);
        let n = ctx.pick(&[1usize, 3]);
        let bytes = header(sofn, w, h, n);
        ctx.state(&bytes);
        ctx.describe(|| format!("SOF{sofn} {w}x{h} {n} components, all requests up to {}", lim + 2));
        let mut rq = vec![];
        for a in 0..=lim + 2 {
            for b in 0..=lim + 2 {
                // vary the order so that each request follows different ones
                rq.push((((a * 7) % (lim + 3)) as u16, ((b * 5 + a) % (lim + 3)) as u16));
            }
        }
        rq.push((65535, 65535));
        rq.push((0, 65535));
        rq.push((65535, 0));
        requests(ctx, V::Rayon, &bytes, w, h, sofn == 3, &rq)
    }));
    models.push(model("every width and height to 65535", move |ctx| {
        let hi = ctx.choose(256);
        let tall = ctx.flag();
        let o = ctx.pick(if ctx.thorough() { &[1usize, 2, 7, 8, 9, 17, 1000, 65535][..] } else { &[1, 65535][..] });
        for lo in 0..256 {
            let d = hi * 256 + lo;
            if d == 0 {
                continue;
            }
            let (w, h) = if tall { (o, d) } else { (d, o) };
            let bytes = header(0, w, h, 1);
            let mut rq = vec![];
            for &a in &near(w) {
                for &b in &near(h) {
                    if a as usize == 0 || b == 65535 || b == 1 || a == 65535 || a as usize == cdiv(w, 2) {
                        rq.push((a, b));
                    }
                }
            }
            ctx.state(&bytes);
            requests(ctx, V::Rayon, &bytes, w, h, false, &rq)?;
        }
        ctx.describe(|| format!("dimensions {}..{} x {o}, tall {tall}", hi * 256, hi * 256 + 255));
        Ok(())
    }));
    models.push(model("mixed dimensions at the thresholds", move |ctx| {
        let ds = [1usize, 3, 7, 8, 9, 15, 16, 17, 255, 256, 257, 511, 4095, 8191, 8192, 8193, 32767, 32768, 65528, 65529, 65535];
        let (w, h) = (ctx.pick(&ds), ctx.pick(&ds));
        let v = ctx.pick(&ALLV);
        let sofn = ctx.pick(&[0u8, 1, 2, 3]);
        let mut rq = vec![];
        for &a in &near(w) {
            for &b in &near(h) {
                rq.push((a, b));
            }
        }
        let bytes = header(sofn, w, h, 1);
        ctx.state((&bytes, v));
        ctx.describe(|| format!("SOF{sofn} {w}x{h} {v:?}"));
        requests(ctx, v, &bytes, w, h, sofn == 3, &rq)
    }));
    let b = Arc::new(all_bases());
    models.push(model("sequences of requests, then decode", move |ctx| {
        let base = &b[ctx.choose(b.len())];
        let (w, h) = (base.img.w, base.img.h);
        let k = if ctx.thorough() { ctx.range(1, 3) } else { ctx.range(1, 2) };
        let rq: Vec<(u16, u16)> = (0..k)
            .map(|_| {
                let s = ctx.choose(6);
                match s {
                    0 => (0, 0),
                    5 => (65535, 65535),
                    s => size(w, h, [1, 2, 4, 8][s - 1]),
                }
            })
            .collect();
        let v = ctx.pick(&ALLV);
        ctx.state((base.name, &rq, v));
        ctx.describe(|| format!("{}: requests {rq:?} {v:?}", base.name));
        let last = *rq.last().unwrap();
        let s = if base.img.sof == 3 { 8 } else { factor(w, h, last.0 as usize, last.1 as usize) };
        let want = size(w, h, s);
        let mut acts: Vec<Act> = rq.iter().map(|&(a, b)| Act::Scale(a, b)).collect();
        acts.push(Act::Decode);
        acts.push(Act::Meta);
        ctx.stream(&base.bytes);
        ctx.trace();
        let rs = session(v, &mut SliceReader::new(&base.bytes), &acts);
        ensure!(rs.get(k - 1) == Some(&Res::Dims(Ok(want))), "scale", "{v:?} {}: {rq:?} returned {:?}, expected {want:?}", base.name, rs.get(k - 1));
        let d = match rs.get(k) {
            Some(Res::Data(Ok(d))) => d,
            x => return fail("error", format!("{v:?} {}: decode after {rq:?}: {x:?}", base.name)),
        };
        let info = match rs.get(k + 1) {
            Some(Res::Meta(m)) => m.info,
            x => return fail("info", format!("{x:?}")),
        };
        let Some(i) = info else { return fail("info", "no info") };
        ensure!((i.w, i.h) == want, "info", "{v:?} {}: info {i:?} after decode, expected {want:?}", base.name);
        ensure!(d.len() == want.0 as usize * want.1 as usize * i.pixel_bytes, "decoded-size", "{v:?} {}: {} bytes for {want:?}", base.name, d.len());
        // the same as one request on a fresh decoder
        let f = dec(ctx, v, &base.bytes, &Opts { scale: Some(last), ..Default::default() });
        ensure!(f.res.as_ref().ok() == Some(d), "replace", "{v:?} {}: requests {rq:?} give other pixels than the last alone", base.name);
        ctx.outcome(d);
        Ok(())
    }));
    let _ = th;
    super::spec(
        "sizes 1..26 squared (thorough 48) x all requests to 28 (50) x processes; every width and every height to 65535 with requests around each threshold; 21x21 dimensions x thresholds; all sequences of 2 (thorough 3) requests on every base stream, decoded",
        &["subsampling does not influence the output size (C15, C02 check that)"],
        models,
    )
}
