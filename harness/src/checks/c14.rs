use super::bases::*;
use super::c13::exact;
use super::*;
use crate::refimg::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    Gray,
    Rgb,
    Ycc,
    Cmyk,
    Ycck,
    Raw,
    Format,
    Unsupported(Ct),
}
/// The precedence the property states.
fn want(ids: &[u8], jfif: bool, ad: Option<u8>, ov: Option<Ct>) -> Want {
    let n = ids.len();
    if matches!(ad, Some(3..=255)) {
        return Want::Format; // not a valid Adobe segment
    }
    if n == 1 {
        return Want::Gray;
    }
    if let Some(o) = ov {
        return match (o, n) {
            (Ct::None, _) => Want::Raw,
            (Ct::Rgb, 3) => Want::Rgb,
            (Ct::YCbCr, 3) => Want::Ycc,
            (Ct::Cmyk, 4) => Want::Cmyk,
            (Ct::Ycck, 4) => Want::Ycck,
            (Ct::BgYcc | Ct::BgRgb, _) => Want::Unsupported(o),
            _ => Want::Format,
        };
    }
    if n == 3 {
        match ids {
            [1, 2, 3] => return Want::Ycc,
            [b'R', b'G', b'B'] => return Want::Rgb,
            [1, 34, 35] => return Want::Unsupported(Ct::BgYcc),
            [b'r', b'g', b'b'] => return Want::Unsupported(Ct::BgRgb),
            _ => {}
        }
        if jfif {
            return Want::Ycc;
        }
        return match ad {
            Some(0) => Want::Rgb,
            Some(1) | None => Want::Ycc,
            _ => Want::Format,
        };
    }
    match ad {
        Some(0) | None => Want::Cmyk,
        Some(2) => Want::Ycck,
        _ => Want::Format,
    }
}
const S: [[u8; 4]; 4] = [[200, 90, 160, 33], [17, 140, 100, 250], [128, 128, 128, 0], [90, 77, 180, 128]];

fn verify(ctx: &mut Ctx, v: V, bytes: &[u8], ov: Option<Ct>, ids: &[u8], w: Want, what: &dyn Fn() -> String) -> R {
    let n = ids.len();
    ctx.state((bytes, ov));
    ctx.describe(|| format!("{} -> {w:?}", what()));
    let o = dec(ctx, v, bytes, &Opts { ct: ov, scale: Some((2, 2)), limit: None });
    ctx.outcome(&o.res);
    let d = match (&o.res, w) {
        (Err(E::Format(_)), Want::Format) => return Ok(()),
        (Err(E::Unsupported(f)), Want::Unsupported(c)) => {
            let name = if c == Ct::BgYcc { "ColorTransform(JcsBgYcc)" } else { "ColorTransform(JcsBgRgb)" };
            ensure!(f == name, "unsupported-kind", "{v:?} {}: refused as {f}", what());
            return Ok(());
        }
        (Ok(d), x) if x != Want::Format && !matches!(x, Want::Unsupported(_)) => d,
        _ => return fail("transform", format!("{v:?} {}: expected {w:?}, got {}", what(), o.brief())),
    };
    ensure!(d.len() == 4 * n, "size", "{} bytes", d.len());
    for (i, s) in S.iter().enumerate() {
        let p = &d[i * n..][..n];
        let e = ycc(s[0] as f64, s[1] as f64, s[2] as f64);
        let yc = |p: &[u8]| (0..3).all(|j| (p[j] as f64 - e[j]).abs() <= 1.0 + 1e-9);
        let ok = match w {
            Want::Gray => p[0] == s[0],
            Want::Rgb | Want::Raw => p == &s[..n],
            Want::Ycc => yc(p),
            Want::Cmyk => p.iter().zip(s).all(|(a, b)| *a == 255 - *b),
            _ => yc(p) && p[3] == 255 - s[3],
        };
        ensure!(ok, "transform", "{v:?} {}: expected {w:?}, samples {:?} became {p:?}", what(), &s[..n]);
    }
    Ok(())
}
fn image(n: usize, ids: &[u8], sofn: u8) -> (Img, Vec<Scan>) {
    let mut img = exact(2, 2, &vec![(1, 1); n], |c, x, y| S[y * 2 + x][c]);
    img.sof = sofn;
    for (i, c) in img.comps.iter_mut().enumerate() {
        c.id = ids[i];
    }
    let all: Vec<usize> = (0..n).collect();
    let scans = if sofn == 2 { vec![Scan::prog(&all, 0, 0, 0, 0), Scan::prog(&[0], 1, 63, 0, 0)] } else { (0..n).map(|c| Scan::seq(&[c])).collect() };
    (img, scans)
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    models.push(model("identifiers x JFIF x Adobe x order x position x override", move |ctx| {
        let ids: Vec<u8> = ctx.pick(&[
            vec![1u8],
            vec![2],
            vec![b'R'],
            vec![1, 2, 3],
            vec![b'R', b'G', b'B'],
            vec![b'r', b'g', b'b'],
            vec![1, 34, 35],
            vec![0, 1, 2],
            vec![3, 2, 1],
            vec![10, 20, 30],
            vec![b'Y', b'C', b'c'],
            vec![1, 2, 3, 4],
            vec![b'C', b'M', b'Y', b'K'],
            vec![0, 1, 2, 3],
            vec![b'R', b'G', b'B', b'A'],
            vec![1, 34, 35, 36],
        ]);
        let jfif = ctx.flag();
        let ad = ctx.pick(&[None, Some(0u8), Some(1), Some(2), Some(3), Some(255)]);
        let ov = match ctx.choose(10) {
            0 => None,
            k => Some(ALLCT[k - 1]),
        };
        let sofn = ctx.pick(&[0u8, 1, 2]);
        let (img, scans) = image(ids.len(), &ids, sofn);
        let mut segs = segments(&img, &q_flat(8), &scans);
        // where the segments stand: after SOI, after the tables, after the frame header, between the scans, before EOI
        let sofi = segs.iter().position(|s| s[1] == 0xC0 + sofn).unwrap();
        let sosi: Vec<usize> = segs.iter().enumerate().filter(|(_, s)| s[1] == 0xDA).map(|x| x.0).collect();
        let spots = [1, sofi, sofi + 1, sosi[0] + 1, segs.len() - 1];
        let pj = if jfif { ctx.choose(5) } else { 0 };
        let pa = if ad.is_some() { ctx.choose(5) } else { 0 };
        let both = jfif && ad.is_some();
        let swap = if both && pj == pa { ctx.flag() } else { false };
        let mut ins: Vec<(usize, Vec<u8>)> = vec![];
        if jfif {
            ins.push((spots[pj], app(0, JFIF)));
        }
        if let Some(a) = ad {
            ins.push((spots[pa], adobe(a)));
        }
        if swap {
            ins.reverse();
        }
        ins.sort_by_key(|x| x.0);
        for (p, s) in ins.into_iter().rev() {
            segs.insert(p, s);
        }
        let bytes = segs.concat();
        let vs: &[V] = if ctx.thorough() { &ALLV } else { &[V::Rayon] };
        for &v in vs {
            verify(ctx, v, &bytes, ov, &ids, want(&ids, jfif, ad, ov), &|| format!("ids {ids:?} JFIF {jfif} at {pj} Adobe {ad:?} at {pa} swapped {swap} override {ov:?} SOF{sofn}"))?;
        }
        Ok(())
    }));
    models.push(model("every identifier value in each place", move |ctx| {
        let base = ctx.pick(&[[1u8, 2, 3], [b'R', b'G', b'B'], [b'r', b'g', b'b'], [1, 34, 35]]);
        let i = ctx.choose(3);
        let x = ctx.choose(256) as u8;
        let (jfif, ad) = ctx.pick(&[(false, None), (true, None), (false, Some(0u8)), (true, Some(0)), (false, Some(2)), (true, Some(2)), (false, Some(1))]);
        let mut ids = base.to_vec();
        ids[i] = x;
        if (0..3).any(|a| (0..a).any(|b| ids[a] == ids[b])) {
            return Ok(());
        }
        let (img, scans) = image(3, &ids, 0);
        let mut head = vec![];
        if jfif {
            head.push(app(0, JFIF));
        }
        if let Some(a) = ad {
            head.push(adobe(a));
        }
        let bytes = with_head(segments(&img, &q_flat(8), &scans), head).concat();
        verify(ctx, V::Pi, &bytes, None, &ids, want(&ids, jfif, ad, None), &|| format!("ids {ids:?} JFIF {jfif} Adobe {ad:?}"))
    }));
    models.push(model("segments that only look like JFIF or Adobe", move |ctx| {
        let n = ctx.pick(&[3usize, 4]);
        let ids = if n == 3 { vec![10u8, 20, 30] } else { vec![10, 20, 30, 40] };
        // a real Adobe 0 (RGB/CMYK) beside look-alikes of JFIF, or look-alikes of Adobe alone
        let (mut head, jf, ad): (Vec<Vec<u8>>, bool, Option<u8>) = match ctx.choose(4) {
            0 => {
                // JFIF signature with one changed or missing byte
                let i = ctx.choose(5);
                let mut p = JFIF.to_vec();
                let x = 1 + ctx.choose(255) as u8;
                p[i] ^= x;
                if p.starts_with(b"AVI1\0") {
                    return Ok(());
                }
                (vec![adobe(0), app(0, &p)], false, Some(0))
            }
            1 => {
                let l = ctx.choose(15);
                (vec![adobe(0), app(0, &JFIF[..l])], l >= 5, Some(0))
            }
            2 => {
                let i = ctx.choose(5);
                let x = 1 + ctx.choose(255) as u8;
                let t = ctx.pick(&[0u8, 2]);
                let mut s = adobe(t);
                s[4 + i] ^= x;
                (vec![s], false, None)
            }
            _ => {
                // wrong application number
                let k = ctx.choose(16) as u8;
                let a = ctx.flag();
                let t = ctx.pick(&[0u8, 2]);
                if a {
                    let mut s = adobe(t);
                    s[1] = 0xE0 + k;
                    (vec![s], false, if k == 14 { Some(t) } else { None })
                } else {
                    (vec![adobe(0), app(k, JFIF)], k == 0, Some(0))
                }
            }
        };
        if ctx.flag() {
            head.reverse();
        }
        let (img, scans) = image(n, &ids, 0);
        let bytes = with_head(segments(&img, &q_flat(8), &scans), head.clone()).concat();
        verify(ctx, V::Rayon, &bytes, None, &ids, want(&ids, jf, ad, None), &|| format!("{n} components, segments {head:02x?}"))
    }));
    models.push(model("override changed before decoding", move |ctx| {
        // the last override set is the one that counts, wherever metadata was read
        let n = ctx.pick(&[1usize, 3, 4]);
        let ids: Vec<u8> = (1..=n as u8).collect();
        let (img, scans) = image(n, &ids, 0);
        let bytes = stream(&img, &q_flat(8), &scans);
        let a = ctx.pick(&ALLCT);
        let b = ctx.pick(&ALLCT);
        let acts = match ctx.choose(3) {
            0 => vec![Act::SetCt(a), Act::SetCt(b), Act::Scale(2, 2), Act::Decode],
            1 => vec![Act::SetCt(a), Act::ReadInfo, Act::SetCt(b), Act::Scale(2, 2), Act::Decode],
            _ => vec![Act::SetCt(a), Act::Scale(2, 2), Act::SetCt(b), Act::Decode],
        };
        ctx.state((&acts, n));
        ctx.trace();
        ctx.stream(&bytes);
        let r = session(V::Rayon, &mut SliceReader::new(&bytes), &acts);
        let want = dec(ctx, V::Rayon, &bytes, &Opts { ct: Some(b), scale: Some((2, 2)), limit: None });
        let got = r.last().cloned();
        ensure!(got == Some(Res::Data(want.res.clone())), "override-order", "{acts:?}: {got:?}, direct: {:?}", want.res);
        Ok(())
    }));
    let _ = th;
    super::spec(
        "16 identifier sets x JFIF x 6 Adobe values x 10 overrides x 3 processes x 5x5 positions x both orders; every identifier byte in each place of the 4 special triples x 7 segment combinations; every one-byte change of the JFIF and Adobe signatures, every APPn number",
        &["an Adobe segment whose transform byte exceeds 2 is malformed (format error)", "single-component images are grey whatever the override", "DCT images (lossless images are returned as coded)"],
        models,
    )
}
