use super::bases::*;
use super::*;

const XMP: usize = 29;
fn payload(l: usize, seed: u64) -> Vec<u8> {
    (0..l).map(|i| mix(i as u64, seed, l as u64) as u8).collect()
}
fn base(kind: usize) -> (Vec<Vec<u8>>, Vec<usize>) {
    let (img, scans) = match kind {
        0 => (dct(0, 8, 8, &[(1, 1)], 51), vec![Scan::seq(&[0])]),
        1 => (dct(2, 9, 8, &[(1, 1); 3], 52), vec![Scan::prog(&[0, 1, 2], 0, 0, 0, 0), Scan::prog(&[1], 1, 63, 0, 0)]),
        _ => (lossless(8, 3, 2, 1, 1), vec![Scan::lossless(&[0], 1, 0)]),
    };
    let segs = segments(&img, &qts(), &scans);
    let sof = segs.iter().position(|s| s[1] >= 0xC0 && s[1] <= 0xC3).unwrap();
    let sos = segs.iter().rposition(|s| s[1] == 0xDA).unwrap();
    let n = segs.len();
    (segs, vec![1, sof, sof + 1, sos, n - 1])
}
/// What the segment contributes: (exif, xmp)
fn model_of(s: &[u8]) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
    if s[1] != 0xE1 {
        return (None, None);
    }
    let p = &s[4..];
    if p.starts_with(b"Exif\0\0") {
        (Some(p[6..].to_vec()), None)
    } else if p.starts_with(XMPSIG) {
        (None, Some(p[XMP..].to_vec()))
    } else {
        (None, None)
    }
}
fn check(ctx: &mut Ctx, v: V, kind: usize, extra: &[(usize, Vec<u8>)], what: &dyn Fn() -> String) -> R {
    let (segs, spots) = base(kind);
    let plain = segs.concat();
    let (mut exif, mut xmp) = (None, None);
    let mut bytes = vec![];
    for (i, s) in segs.iter().enumerate() {
        for (p, e) in extra.iter().filter(|e| spots[e.0] == i) {
            let _ = p;
            let (a, b) = model_of(e);
            exif = a.or(exif);
            xmp = b.or(xmp);
            bytes.extend_from_slice(e);
        }
        bytes.extend_from_slice(s);
    }
    ctx.state(&bytes);
    ctx.describe(what);
    let o = dec(ctx, v, &bytes, &Opts::default());
    let p = dec(ctx, v, &plain, &Opts::default());
    ctx.outcome((&o.meta.exif, &o.meta.xmp));
    ensure!(o.res == p.res && p.res.is_ok() && o.info() == p.info(), "decoding", "{v:?} {}: the image changed: {} / {}", what(), o.brief(), p.brief());
    for (name, got, want) in [("EXIF", &o.meta.exif, &exif), ("XMP", &o.meta.xmp, &xmp)] {
        ensure!(got == want, name, "{v:?} {}: {name} is {:?} bytes, expected {:?}; difference {:?}", what(), got.as_ref().map(|x| x.len()), want.as_ref().map(|x| x.len()), got.as_ref().zip(want.as_ref()).map(|(a, b)| first_diff(a, b)));
    }
    ensure!(o.meta.icc.is_none(), "icc", "an ICC profile appeared");
    Ok(())
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    models.push(model("payload lengths", move |ctx| {
        // blocks of 64 consecutive lengths
        let max = 65533;
        let nb = cdiv(max + 1, 64);
        let b = if ctx.thorough() { ctx.choose(nb) } else { ctx.pick(&[0usize, 1, 2, 3, 4, 7, 8, 15, 16, 63, 64, 127, 128, 255, 256, 511, 512, nb - 2, nb - 1]) };
        let x = ctx.flag();
        for l in b * 64..b * 64 + 64 {
            let (sig, lim) = if x { (XMP, max - XMP) } else { (6, max - 6) };
            let _ = sig;
            if l > lim {
                continue;
            }
            let p = payload(l, x as u64);
            check(ctx, V::Rayon, 0, &[(0, if x { xmp(&p) } else { exif(&p) })], &|| format!("{} of {l} bytes", if x { "XMP" } else { "EXIF" }))?;
        }
        Ok(())
    }));
    models.push(model("signatures differing in any byte, any length", move |ctx| {
        let x = ctx.flag();
        let good = if x { xmp(b"<packet/>") } else { exif(b"MM\0*0123") };
        let siglen = if x { XMP } else { 6 };
        let i = ctx.choose(siglen);
        let m = ctx.range(1, 255) as u8;
        let mut s = good.clone();
        s[4 + i] ^= m;
        let order = ctx.choose(3);
        // alone, before or after a good segment of the same kind
        let extra = match order {
            0 => vec![(0, s)],
            1 => vec![(0, s), (0, good)],
            _ => vec![(0, good), (0, s)],
        };
        check(ctx, V::Rayon, 0, &extra, &|| format!("xmp {x} signature byte {i} xor {m:#x}, order {order}"))
    }));
    models.push(model("segments cut short, other application numbers", move |ctx| {
        let x = ctx.flag();
        let full = if x { xmp(b"<packet/>") } else { exif(b"MM\0*0123") };
        let l = ctx.choose(full.len() - 3);
        let n = ctx.choose(17) as u8;
        let s = if n == 16 { com(&full[4..4 + l]) } else { app(n, &full[4..4 + l]) };
        if (n == 14 && l >= 12) || n == 0 && l >= 5 {
            // no signature of these segments in there
        }
        let order = ctx.choose(3);
        let good = if x { exif(b"II*\0other") } else { xmp(b"<other/>") };
        let extra = match order {
            0 => vec![(0, s)],
            1 => vec![(0, s), (0, good)],
            _ => vec![(0, good), (0, s)],
        };
        check(ctx, V::Rayon, 0, &extra, &|| format!("xmp {x}, APP{n} of {l} bytes, order {order}"))
    }));
    models.push(model("every sequence of segments and places", move |ctx| {
        let kinds: Vec<Vec<u8>> = vec![
            exif(b"MM\0*first"),
            exif(b"II*\0second, longer"),
            exif(b""),
            xmp(b"<first/>"),
            xmp(b"<second attr=\"\xff\xd9\"/>"),
            xmp(b""),
            app(1, b"Exif\0"),
            app(1, b""),
            app(1, b"http://ns.adobe.com/xap/1.0/"),
            app(1, b"http://ns.adobe.com/xmp/extension/\0abc"),
            app(2, b"Exif\0\0MM\0*"),
            com(b"Exif\0\0MM\0*"),
            app(13, b"Photoshop 3.0\0 8BIM"),
        ];
        let kind = ctx.choose(3);
        let k = ctx.range(1, if ctx.thorough() { 4 } else { 3 });
        let mut place = 0;
        let mut extra = vec![];
        for _ in 0..k {
            // places in stream order
            place = if k == 4 { place } else { ctx.range(place, 4) };
            extra.push((place, kinds[ctx.choose(kinds.len())].clone()));
        }
        check(ctx, if kind == 1 { V::Mpsc } else { V::Rayon }, kind, &extra, &|| format!("segments at {:?}", extra.iter().map(|e| e.0).collect::<Vec<_>>()))
    }));
    models.push(model("containers of other data that hold or resemble EXIF, XMP and ICC", move |ctx| {
        let tiff = b"MM\0*\0\0\0\x08elsewhere".to_vec();
        let packet = b"<?xpacket begin=\"\"?><x:xmpmeta/>".to_vec();
        let what = ctx.choose(18);
        let (name, s): (String, Vec<u8>) = match what {
            0 => {
                // a Photoshop resource block: 1058 and 1059 are EXIF, 1060 XMP, 1039 an ICC profile, 1028 IPTC
                let id = if ctx.thorough() { ctx.range(1000, 1100) } else { ctx.range(1020, 1065) } as u16;
                let data = match ctx.choose(4) {
                    0 => tiff.clone(),
                    1 => [b"Exif\0\0", &tiff[..]].concat(),
                    2 => packet.clone(),
                    _ => vec![],
                };
                let pascal: &[u8] = if ctx.flag() { b"\0\0" } else { b"\x03abc" };
                let mut p = b"Photoshop 3.0\08BIM".to_vec();
                p.extend(id.to_be_bytes());
                p.extend(pascal);
                p.extend((data.len() as u32).to_be_bytes());
                p.extend(&data);
                (format!("resource {id}, {} bytes, name of {}", data.len(), pascal.len()), app(13, &p))
            }
            k => {
                let cat = |a: &[u8], b: &[u8]| [a, b].concat();
                let (n, p) = match k {
                    1 => (1, cat(b"http://ns.adobe.com/xmp/extension/\0", &cat(b"0123456789ABCDEF0123456789ABCDEF\0\0\0\x20\0\0\0\0", &packet))),
                    2 => (1, cat(b"XMP\0://ns.adobe.com/xap/1.0/\0", &packet)),
                    3 => (1, cat(b"https://ns.adobe.com/xap/1.0/\0", &packet)),
                    4 => (1, cat(b"exif\0\0", &tiff)),
                    5 => (1, cat(b"EXIF\0\0", &tiff)),
                    6 => (1, tiff.clone()),
                    7 => (1, packet.clone()),
                    8 => (3, cat(b"Meta\0\0", &tiff)),
                    9 => (3, cat(b"META\0\0", &tiff)),
                    10 => (2, cat(b"MPF\0", &tiff)),
                    11 => (2, cat(b"FPXR\0\0\x02", &tiff)),
                    12 => (0, cat(b"JFXX\0\x10", &tiff)),
                    13 => (0, cat(b"Exif\0\0", &tiff)),
                    14 => (11, cat(b"JP\0\x01\0\0\0\x01\0\0\0\x20jumb", &packet)),
                    15 => (1, cat(b"\0\0Exif\0\0", &tiff)),
                    16 => (1, cat(b"Exif\0\xFF", &tiff)),
                    _ => (13, cat(b"Adobe_CM\0", &packet)),
                };
                (format!("container {k}"), app(n, &p))
            }
        };
        let kind = ctx.choose(3);
        let place = ctx.choose(5);
        let mut extra = vec![(place, s)];
        match ctx.choose(5) {
            0 => {}
            1 => extra.insert(0, (place, exif(b"II*\0real"))),
            2 => extra.push((place, exif(b"II*\0real"))),
            3 => extra.insert(0, (place, xmp(b"<real/>"))),
            _ => extra.push((place, xmp(b"<real/>"))),
        }
        check(ctx, V::Pi, kind, &extra, &|| format!("{name} at {place} in stream {kind}"))
    }));
    let _ = th;
    super::spec(
        "EXIF and XMP payload lengths (quick: 0..320, 19 blocks of 64 up to the limit; thorough: all 0..65527); every one-byte change of both signatures; every length of a cut signature x 16 application numbers and COM; all sequences of up to 3 (thorough 4) of 13 segments x places in 3 kinds of stream; 17 other containers and Photoshop resource blocks 1020..1065 (thorough 1000..1100) with EXIF- and XMP-like contents, alone, before and after real ones",
        &[],
        models,
    )
}
