use super::bases::*;
use super::*;
use std::sync::Arc;

fn payloads() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![0xFF],
        vec![0xFF, 0xD9],
        vec![0xFF, 0xD8, 0xFF, 0xDA, 0, 2],
        vec![0xFF, 0xC0, 0, 11, 8, 0, 16, 0, 16, 1, 1, 0x11, 0],
        vec![0xFF, 0xDD, 0, 4, 0, 1, 0xFF, 0xC4],
        vec![0xFF, 0xFF, 0xFF],
        b"text".to_vec(),
    ];
    v.push(vec![0xFF; 300]);
    v.push((0..=255u8).cycle().take(1000).collect());
    v.push(vec![0xD9; 65533]);
    v
}
/// Things that may be inserted at a segment boundary.
fn items(th: bool) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for (i, p) in payloads().into_iter().enumerate() {
        v.push((format!("COM #{i}"), com(&p)));
        for n in 0..16u8 {
            // none of these payloads carries a signature
            if th || (n as usize + i) % 3 == 0 || n >= 14 || n == 0 {
                v.push((format!("APP{n} #{i}"), app(n, &p)));
            }
        }
    }
    v.push(("APP0 JFXX".into(), app(0, b"JFXX\0\x10abc")));
    v.push(("APP14 short Adobe".into(), app(14, b"Adobe\0\x64\0\0\0\0")));
    v.push(("APP14 other".into(), app(14, b"Adobf\0\x64\0\0\0\0\x02")));
    v.push(("APP1 Exif".into(), exif(b"MM\0*\xff\xd9")));
    v.push(("APP1 XMP".into(), xmp(b"<x/>")));
    v.push(("APP2 ICC".into(), icc(1, 1, b"\xff\xd8profile")));
    v.push(("APP13 PSIR".into(), app(13, b"Photoshop 3.0\0\xff\xd98BIM")));
    // signatures that are nearly known: one character changed, cut short, or in another segment
    let sigs: [(u8, &[u8]); 7] = [(0, b"JFIF\0"), (0, b"AVI1\0"), (14, b"Adobe\0"), (1, b"Exif\0\0"), (1, XMPSIG), (2, b"ICC_PROFILE\0"), (13, b"Photoshop 3.0\0")];
    for (own, sig) in sigs {
        let full = |s: &[u8]| [s, b"\x64\0\0\0\0\x02\x01\x01\x01"].concat();
        let name = String::from_utf8_lossy(&sig[..4]).into_owned();
        for i in 0..sig.len().min(14) {
            for x in if th { &[0x20u8, 1, 0x80, 2][..] } else { &[0x20u8, 1][..] } {
                let mut s = sig.to_vec();
                s[i] ^= x;
                v.push((format!("APP{own} {name} with byte {i} ^ {x:02x}"), app(own, &full(&s))));
            }
            if i > 0 {
                v.push((format!("APP{own} {name} cut to {i}"), app(own, &sig[..i])));
            }
        }
        for n in (0..16).filter(|&n| n != own && (th || [0, 1, 2, 13, 14, 15].contains(&n))) {
            v.push((format!("APP{n} {name}"), app(n, &full(sig))));
        }
        v.push((format!("COM {name}"), com(&full(sig))));
    }
    for n in [1usize, 2, 3, 17, 200] {
        v.push((format!("{n} fill bytes"), vec![0xFF; n]));
    }
    for b in [vec![0u8], vec![0x11, 0x22], vec![0xD9], vec![0xDA, 0, 1], vec![0xFE; 9], vec![0xC0, 0xC4, 0xE0, 0x01, 0xD0], vec![0; 40]] {
        v.push((format!("stray {b:02x?}"), b));
    }
    v
}
/// Streams whose colours depend on which segments are recognised.
fn colour_bases() -> Vec<Base> {
    let mut v = vec![];
    for (name, n, head) in [("odd ids", 3, vec![]), ("odd ids, Adobe 0", 3, vec![adobe(0)]), ("odd ids, Adobe 1", 3, vec![adobe(1)]), ("odd ids, JFIF", 3, vec![app(0, JFIF)]), ("four components, Adobe 0", 4, vec![adobe(0)])] {
        let mut img = dct(0, 9, 9, &vec![(1, 1); n], 61);
        for (i, c) in img.comps.iter_mut().enumerate() {
            c.id = 7 + i as u8;
        }
        let segs = with_head(segments(&img, &qts(), &[Scan::seq(&(0..n).collect::<Vec<_>>())]), head);
        v.push(mk(name, img, segs));
    }
    v
}
fn places(b: &Base) -> Vec<usize> {
    // before every segment but the first
    let mut off = vec![];
    let mut o = 0;
    for (i, s) in b.segs.iter().enumerate() {
        if i > 0 {
            off.push(o);
        }
        o += s.len();
    }
    off
}
fn check(ctx: &mut Ctx, v: V, b: &Base, ins: &[(usize, &[u8])], what: &dyn Fn() -> String) -> R {
    let mut m = b.bytes.clone();
    let mut s: Vec<&(usize, &[u8])> = ins.iter().collect();
    s.sort_by_key(|x| x.0);
    for (p, x) in s.into_iter().rev() {
        m.splice(p..p, x.iter().copied());
    }
    ctx.state(&m);
    ctx.describe(what);
    let a = dec(ctx, v, &b.bytes, &Opts::default());
    must(&a, b.name)?;
    let o = dec(ctx, v, &m, &Opts::default());
    ctx.outcome(o.res.is_ok());
    ensure!(o.res == a.res, "pixels", "{v:?} {}: {} / without {}", what(), o.brief(), a.brief());
    ensure!(o.info() == a.info(), "info", "{v:?} {}: info {:?} / without {:?}", what(), o.info(), a.info());
    // metadata alone
    let r = session(v, &mut SliceReader::new(&m), &[Act::ReadInfo, Act::Meta]);
    let i = match r.get(1) {
        Some(Res::Meta(m)) => m.info,
        _ => None,
    };
    ensure!(r.first() == Some(&Res::Unit(Ok(()))) && i == a.info(), "read_info", "{v:?} {}: read_info gives {:?}", what(), r);
    Ok(())
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    let mut b = all_bases();
    b.extend(colour_bases());
    let b = Arc::new(b);
    let it = Arc::new(items(th));
    models.push(model("every insertion at every place", {
        let (b, it) = (b.clone(), it.clone());
        move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let pl = places(base);
            let p = ctx.pick(&pl);
            let (n, x) = &it[ctx.choose(it.len())];
            let v = if ctx.thorough() { ctx.pick(&ALLV) } else { V::Mpsc };
            if v == V::Mpsc && base.img.w > 128 && !ctx.thorough() {
                return check(ctx, V::Pi, base, &[(p, x)], &|| format!("{}: {n} at {p}", base.name));
            }
            check(ctx, v, base, &[(p, x)], &|| format!("{}: {n} at {p}", base.name))
        }
    }));
    let small = Arc::new(bases());
    let few: Arc<Vec<(String, Vec<u8>)>> = Arc::new(it.iter().filter(|(n, x)| x.len() < 12 && (th || !n.contains(" with byte ") && !n.contains(" cut to ")) && (n.starts_with("COM") || n.starts_with("stray") || n.contains("fill") || n.starts_with("APP0") || n.starts_with("APP14"))).cloned().collect());
    models.push(model("pairs of insertions", {
        let few = few.clone();
        let small = small.clone();
        move |ctx| {
            let base = &small[ctx.choose(small.len())];
            let pl = places(base);
            let i = ctx.choose(pl.len());
            let j = ctx.range(i, pl.len() - 1);
            let (n, x) = &few[ctx.choose(few.len())];
            let (m, y) = &few[ctx.choose(few.len())];
            if i == j {
                let z = [&x[..], &y[..]].concat();
                if n.contains("fill") && !y.starts_with(&[0xFF]) {
                    return Ok(()); // FF xx would be a marker (or a stuffed byte)
                }
                return check(ctx, V::Pi, base, &[(pl[i], &z)], &|| format!("{}: {n} then {m} at {}", base.name, pl[i]));
            }
            check(ctx, V::Pi, base, &[(pl[i], x), (pl[j], y)], &|| format!("{}: {n} at {} and {m} at {}", base.name, pl[i], pl[j]))
        }
    }));
    models.push(model("the same insertion at every place at once", {
        let it = it.clone();
        let b = b.clone();
        move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let (n, x) = &it[ctx.choose(it.len())];
            let v = ctx.pick(&ALLV);
            let pl = places(base);
            let ins: Vec<(usize, &[u8])> = pl.iter().map(|&p| (p, &x[..])).collect();
            check(ctx, v, base, &ins, &|| format!("{}: {n} everywhere", base.name))
        }
    }));
    models.push(model("long runs of fill and stray bytes", {
        let b = b.clone();
        move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let pl = places(base);
            let p = ctx.pick(&pl);
            let n = ctx.pick(&[127usize, 128, 253, 254, 255, 256, 257, 511, 512, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 70001]);
            let byte = ctx.pick(&[0xFFu8, 0x00, 0xD8, 0xDA]);
            if !ctx.thorough() && n > 600 && !(n + pl.iter().position(|&x| x == p).unwrap()).is_multiple_of(4) {
                return Ok(());
            }
            check(ctx, V::Pi, base, &[(p, &vec![byte; n])], &|| format!("{}: {n} bytes {byte:02x} at {p}", base.name))
        }
    }));
    models.push(model("payload lengths", move |ctx| {
        let base = &small[ctx.pick(&[0usize, 7, 9])];
        let pl = places(base);
        let p = ctx.pick(&pl);
        let c = ctx.pick(&[0xFEu8, 0xE0, 0xE1, 0xE2, 0xE3, 0xED, 0xEE, 0xEF]);
        let l = if ctx.thorough() { ctx.range(0, 600) } else { ctx.range(0, 80) };
        let byte = ctx.pick(&[0xFFu8, 0x00, 0xD9]);
        let s = seg(c, &vec![byte; l]);
        check(ctx, V::Pi, base, &[(p, &s)], &|| format!("{}: marker {c:02x} of {l} x {byte:02x} at {p}", base.name))
    }));
    super::spec(
        "25 base streams x every segment boundary x ~330 items (COM, nearly known signatures in every segment, APP0..15 with marker-like payloads up to the maximum length, fill bytes, stray bytes); all pairs of small items at all pairs of places; the same item everywhere; runs of 127..70001 fill or stray bytes; payload lengths 0..80 (thorough 600)",
        &["items inserted between segments; stray bytes are bytes other than FF; FF runs are fill bytes and precede a marker"],
        models,
    )
}
