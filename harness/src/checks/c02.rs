use super::bases::*;
use super::*;
use std::sync::Arc;

/// (frame type, precision, height, width, components) of the first frame header, found by walking the
/// segments as T.81 Annex B describes (tolerating stray bytes and fill bytes between segments).
pub fn first_sof(b: &[u8]) -> Option<(u8, u8, usize, usize, u8)> {
    let mut i = 2;
    loop {
        while *b.get(i)? != 0xFF {
            i += 1;
        }
        while *b.get(i)? == 0xFF {
            i += 1;
        }
        let m = b[i];
        i += 1;
        match m {
            0 => continue,
            0x01 | 0xD0..=0xD9 => continue,
            0xC0..=0xCF if ![0xC4, 0xC8, 0xCC].contains(&m) => {
                return Some((m, *b.get(i + 2)?, (*b.get(i + 3)? as usize) << 8 | *b.get(i + 4)? as usize, (*b.get(i + 5)? as usize) << 8 | *b.get(i + 6)? as usize, *b.get(i + 7)?));
            }
            _ => i += (*b.get(i)? as usize) << 8 | *b.get(i + 1)? as usize,
        }
    }
}

/// Check the agreement of buffer, info, header and scale result of a successful decode.
pub fn agree(v: V, bytes: &[u8], o: &Opts, out: &Out) -> R {
    let d = match &out.res {
        Ok(d) => d,
        Err(E::Panic(m)) => return fail("panic", format!("{v:?} {o:?}: panic {m}")),
        Err(_) => return Ok(()),
    };
    let Some(i) = out.info() else { return fail("no-info", format!("{v:?}: no info after a successful decode")) };
    let Some((m, p, h, w, n)) = first_sof(bytes) else { return fail("harness", "no frame header found in an accepted stream") };
    let cp = match m {
        0xC0 | 0xC1 => Cp::Seq,
        0xC2 => Cp::Prog,
        _ => Cp::Lossless,
    };
    let pf = match (n, p) {
        (1, 2..=8) => Pf::L8,
        (1, _) => Pf::L16,
        (3, _) => Pf::Rgb24,
        _ => Pf::Cmyk32,
    };
    ensure!(i.cp == cp, "coding-process", "{v:?}: coding process {:?}, frame type {m:#x}", i.cp);
    ensure!(i.pf == pf && i.pixel_bytes == pf.bytes(), "pixel-format", "{v:?}: pixel format {:?} ({} bytes) for {n} components of {p} bits", i.pf, i.pixel_bytes);
    let (ew, eh) = match &out.scale_ret {
        Some(Ok((a, b))) => (*a as usize, *b as usize),
        _ => (w, h),
    };
    ensure!((i.w as usize, i.h as usize) == (ew, eh), "size", "{v:?} {o:?}: info {}x{}, frame header {w}x{h}, scale returned {:?}", i.w, i.h, out.scale_ret);
    let want = ew * eh * pf.bytes();
    if d.len() != want {
        if cp == Cp::Lossless && n > 1 && p > 8 && d.len() == 2 * want {
            return fail("lossless-multi-16bit", format!("{v:?}: {n} components of {p} bits: {} bytes, but {:?} needs {want}", d.len(), i.pf));
        }
        return fail("length", format!("{v:?} {o:?}: {} bytes, but {ew}x{eh} {:?} needs {want}", d.len(), i.pf));
    }
    Ok(())
}
fn run(ctx: &mut Ctx, v: V, bytes: &[u8], o: &Opts) -> R {
    let out = dec(ctx, v, bytes, o);
    ctx.outcome((out.res.as_ref().map(|d| d.len()).ok(), out.info()));
    agree(v, bytes, o, &out)
}
fn reqs(w: usize, h: usize) -> Vec<Option<(u16, u16)>> {
    let mut v = vec![None];
    for s in [1, 2, 4, 8] {
        v.push(Some((cdiv(w * s, 8) as u16, cdiv(h * s, 8) as u16)));
    }
    v
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    let (nw, nh) = if th { (40, 40) } else { (18, 11) };
    models.push(model("DCT processes x components x sizes x scales", move |ctx| {
        let n = ctx.pick(&[1usize, 3, 4]);
        let f = match n {
            1 => ctx.pick(&[vec![(1, 1)], vec![(2, 2)], vec![(3, 1)]]),
            3 => ctx.pick(&[vec![(1, 1); 3], vec![(2, 1), (1, 1), (1, 1)], vec![(2, 2), (1, 1), (1, 1)], vec![(1, 2), (1, 1), (1, 1)], vec![(4, 1), (1, 1), (2, 1)], vec![(1, 1), (1, 3), (1, 1)]]),
            _ => ctx.pick(&[vec![(1, 1); 4], vec![(2, 2), (1, 1), (1, 1), (2, 2)]]),
        };
        let sofn = ctx.pick(&[0u8, 1, 2]);
        let (w, h) = (ctx.range(1, nw), ctx.range(1, nh));
        let img = dct(sofn, w, h, &f, 3);
        let all: Vec<usize> = (0..n).collect();
        let scans = if sofn == 2 {
            let mut s = vec![Scan::prog(&all, 0, 0, 0, 0)];
            s.push(Scan::prog(&[0], 1, 63, 0, 0));
            s
        } else {
            vec![Scan::seq(&all)]
        };
        let bytes = stream(&img, &qts(), &scans);
        let rq = reqs(w, h);
        let scale = ctx.pick(&rq);
        let ct = ctx.pick(&[None, Some(Ct::None)]);
        ctx.state((&bytes, scale, ct));
        ctx.describe(|| format!("sof{sofn} {f:?} {w}x{h} scale {scale:?} ct {ct:?}"));
        for v in ALLV {
            run(ctx, v, &bytes, &Opts { scale, ct, limit: None })?;
        }
        Ok(())
    }));
    models.push(model("lossless: precisions x components x sizes x scales", move |ctx| {
        let n = ctx.pick(&[1usize, 3, 4]);
        let prec = ctx.range(2, 16) as u8;
        let (w, h) = (ctx.range(1, 9), ctx.range(1, 9));
        let sep = ctx.flag();
        let pt = ctx.pick(&[0u8, 1]);
        let img = lossless(prec, w, h, n, 5);
        let all: Vec<usize> = (0..n).collect();
        let scans: Vec<Scan> = if sep { (0..n).map(|c| Scan::lossless(&[c], 1, pt)).collect() } else { vec![Scan::lossless(&all, 4, pt)] };
        let bytes = stream(&img, &qts(), &scans);
        let rq = reqs(w, h);
        let scale = ctx.pick(&rq);
        ctx.state((&bytes, scale));
        ctx.describe(|| format!("{n} components of {prec} bits {w}x{h} scale {scale:?}"));
        for v in ALLV {
            run(ctx, v, &bytes, &Opts { scale, ..Default::default() })?;
        }
        Ok(())
    }));
    let b = Arc::new(all_bases());
    models.push(model("base streams x scales x options", {
        let b = b.clone();
        move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let rq = reqs(base.img.w, base.img.h);
            let scale = ctx.pick(&rq);
            let ct = match ctx.choose(10) {
                0 => None,
                k => Some(ALLCT[k - 1]),
            };
            let v = ctx.pick(&ALLV);
            ctx.state((base.name, scale, ct, v));
            run(ctx, v, &base.bytes, &Opts { scale, ct, limit: None })
        }
    }));
    let sm = Arc::new(bases());
    models.push(model("every single-byte header substitution", move |ctx| {
        let base = &sm[ctx.choose(sm.len())];
        let n = if ctx.thorough() { base.bytes.len() } else { base.first_scan_data() };
        let i = ctx.choose(n);
        let x = 1 + ctx.choose(255);
        let mut m = base.bytes.clone();
        m[i] ^= x as u8;
        if super::c01::area(&m) > 1 << 19 {
            ctx.count("skipped_huge", 1);
            return Ok(());
        }
        let scale = ctx.pick(if ctx.thorough() { &[None, Some((1, 1)), Some((5, 5))] } else { &[None, Some((1, 1))] });
        ctx.state((base.name, i, x, scale));
        ctx.describe(|| format!("{} byte {i} ^ {x:#x} scale {scale:?}", base.name));
        run(ctx, V::Rayon, &m, &Opts { scale, ..Default::default() })
    }));
    super::spec(
        "DCT: listed factor sets, sizes to 18x11 (thorough 40x40), 5 scale requests; lossless: precision 2..16, sizes to 9x9; all single-byte header substitutions of the base streams that still decode",
        &["the announced area of mutants is limited to 2^19 pixels"],
        models,
    )
}
