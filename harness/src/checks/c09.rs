use super::bases::*;
use super::c08::{chain, merge, scr, sequential};
use super::*;

/// The coefficients a decoder knows after the given scans.
pub fn delivered(img: &Img, scans: &[Scan]) -> Img {
    let mut out = img.clone();
    for (ci, c) in out.comps.iter_mut().enumerate() {
        // bits delivered per coefficient: None = nothing yet
        let mut al: [Option<u8>; 64] = [None; 64];
        for s in scans.iter().filter(|s| s.comps.contains(&ci)) {
            for k in s.ss..=s.se {
                al[k as usize] = Some(s.al);
            }
        }
        for b in c.blocks.iter_mut() {
            for k in 0..64 {
                b[k] = match al[k] {
                    None => 0,
                    Some(a) if k == 0 => (shift_dc(b[0], a) << a) as i16,
                    Some(a) => (shift_ac(b[k], a) << a) as i16,
                };
            }
        }
    }
    out
}

fn prefix(ctx: &mut Ctx, img: &Img, scans: &[Scan], n: usize, vs: &[V], scale: Option<(u16, u16)>) -> R {
    let nc = img.comps.len();
    let p = stream(img, &qts(), &scans[..n]);
    ctx.state((&p, scale));
    let what = || format!("{}x{} [{}] of [{}] scale {scale:?}", img.w, img.h, scr(&scans[..n]), scr(scans));
    ctx.describe(what);
    let q = sequential(&delivered(img, &scans[..n]));
    for &v in vs {
        let a = dec_raw(ctx, v, &p, nc, scale);
        if n == 0 {
            ensure!(matches!(a.res, Err(E::Format(_))), "no-scan", "{v:?} image without any scan: {}", a.brief());
            continue;
        }
        let b = dec_raw(ctx, v, &q, nc, scale);
        let b = must(&b, "sequential coding of the delivered coefficients")?;
        let a = must(&a, &format!("{v:?} {}", what()))?;
        ctx.outcome(&a);
        ensure!(a == b, "pixels", "{v:?} {}: differs from the delivered coefficients at {:?}", what(), first_diff(&a, &b));
    }
    Ok(())
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    models.push(model("gray: every prefix of every scan order", move |ctx| {
        let cuts: &[u8] = ctx.pick(&[&[64u8][..], &[6, 64], &[2, 20, 64]]);
        let mut chains = vec![chain(&[0], 0, 0, ctx.range(0, 2) as u8, Huff::Flat, 1)];
        let mut lo = 1;
        for &hi in cuts {
            let al = ctx.range(0, if cuts.len() > 2 { 1 } else { 2 }) as u8;
            chains.push(chain(&[0], lo, hi - 1, al, Huff::Flat, 32767));
            lo = hi;
        }
        let scans = merge(ctx, &chains);
        let n = ctx.choose(scans.len() + 1);
        let w = ctx.pick(if ctx.thorough() { &[18usize, 131][..] } else { &[18] });
        let img = dct(2, w, 9, &[(1, 1)], 31);
        prefix(ctx, &img, &scans, n, if w > 128 { &[V::Rayon, V::Mpsc] } else { &[V::Rayon] }, None)
    }));
    models.push(model("colour: every prefix, components in any order", move |ctx| {
        let f = ctx.pick(&[vec![(1, 1), (1, 1), (1, 1)], vec![(2, 2), (1, 1), (1, 1)], vec![(1, 2), (1, 1), (2, 1)]]);
        let w = ctx.pick(if ctx.thorough() { &[17usize, 145][..] } else { &[17] });
        let parts = ordered_partitions(3);
        let p = ctx.pick(&parts);
        let dal = ctx.choose(2) as u8;
        let aal = ctx.choose(2) as u8;
        let mut chains: Vec<Vec<Scan>> = p.iter().map(|g| chain(g, 0, 0, dal, Huff::Flat, 1)).collect();
        for c in 0..3 {
            chains.push(chain(&[c], 1, 63, aal, Huff::Flat, 32767));
        }
        // orders: any order of the chains, each run in one piece (thorough: every merge of first scans and refinements)
        let mut scans: Vec<Scan> = vec![];
        let mut left: Vec<usize> = (0..chains.len()).collect();
        let mut dc = [false; 4];
        while !left.is_empty() {
            let ready: Vec<usize> = left.iter().copied().filter(|&i| chains[i][0].ss == 0 || chains[i][0].comps.iter().all(|&c| dc[c])).collect();
            let i = ready[ctx.choose(ready.len())];
            left.retain(|&x| x != i);
            if chains[i][0].ss == 0 {
                chains[i][0].comps.iter().for_each(|&c| dc[c] = true);
            }
            scans.extend(chains[i].clone());
        }
        let n = ctx.choose(scans.len() + 1);
        let img = dct(2, w, 18, &f, 32);
        let vs: &[V] = if ctx.thorough() { &ALLV } else if w > 128 { &[V::Rayon, V::Mpsc] } else { &[V::Rayon] };
        prefix(ctx, &img, &scans, n, vs, None)
    }));
    models.push(model("subsets of components, any progress each, scaled", move |ctx| {
        // progress of a component: nothing, DC coarse, DC, DC + low band, all but the last bits, everything
        let n = ctx.pick(&[1usize, 3, 4]);
        let f: Vec<(usize, usize)> = match n {
            1 => vec![(1, 1)],
            3 => ctx.pick(&[vec![(1, 1); 3], vec![(2, 1), (1, 1), (1, 1)], vec![(2, 2), (1, 1), (1, 2)]]),
            _ => vec![(2, 1), (1, 1), (1, 1), (2, 1)],
        };
        let mut scans = vec![];
        for c in 0..n {
            let p = ctx.choose(6);
            if p == 1 {
                scans.push(Scan::prog(&[c], 0, 0, 0, 2));
            }
            if p >= 2 {
                scans.push(Scan::prog(&[c], 0, 0, 0, 0));
            }
            if p == 3 {
                scans.push(Scan::prog(&[c], 1, 8, 0, 0));
            }
            if p >= 4 {
                scans.push(Scan::prog(&[c], 1, 63, 0, 1));
            }
            if p >= 5 {
                scans.push(Scan::prog(&[c], 1, 63, 1, 0));
            }
        }
        let (w, h) = ctx.pick(&[(10usize, 17usize), (140, 9), (30, 34)]);
        let sc = ctx.pick(&[8usize, 4, 1]);
        let scale = if sc == 8 { None } else { Some((cdiv(w * sc, 8) as u16, cdiv(h * sc, 8) as u16)) };
        let img = dct(2, w, h, &f, 33);
        let k = scans.len();
        prefix(ctx, &img, &scans, k, if ctx.thorough() { &ALLV } else { &[V::Rayon, V::Mpsc] }, scale)
    }));
    models.push(model("missing components of a sequential or lossless image are errors", move |ctx| {
        let sofn = ctx.pick(&[0u8, 1, 3]);
        let n = ctx.pick(&[1usize, 3, 4]);
        let mask = ctx.choose((1 << n) - 1);
        let w = ctx.pick(&[9usize, 140]);
        let v = ctx.pick(&ALLV);
        let order = ctx.flag();
        let mut scans: Vec<Scan> = (0..n).filter(|c| mask >> c & 1 == 1).map(|c| if sofn == 3 { Scan::lossless(&[c], 1, 0) } else { Scan::seq(&[c]) }).collect();
        if order {
            scans.reverse();
        }
        let img = if sofn == 3 { lossless(8, w, 9, n, 1) } else { dct(sofn, w, 9, &vec![(1, 1); n], 34) };
        let p = stream(&img, &qts(), &scans);
        ctx.state((&p, v));
        ctx.describe(|| format!("sof{sofn} {n} components, coded {mask:b}"));
        let scale = ctx.pick(&[None, Some((1u16, 1u16))]);
        let o = dec(ctx, v, &p, &Opts { scale, ..Default::default() });
        ensure!(matches!(o.res, Err(E::Format(_))), "missing-component", "{v:?} sof{sofn}: {n} components of which only {mask:b} are coded: {}", o.brief());
        Ok(())
    }));
    let _ = th;
    super::spec(
        "gray: every prefix of every linear extension of 3 band splits x approximation depths; colour: every grouping of DC scans, every order of the scan chains, every prefix; 6 progress states per component for 1, 3, 4 components at 3 scales",
        &["the sequential coding of the delivered coefficients is the oracle (C07, C12 decide that one)"],
        models,
    )
}
