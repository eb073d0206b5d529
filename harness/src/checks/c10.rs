use super::bases::*;
use super::*;

/// One coded image with the given restart intervals per scan, and without.
fn make(kind: usize, ris: &[usize]) -> (Img, Vec<Scan>) {
    let r = |i: usize| ris[i % ris.len()];
    match kind {
        0 => (dct(0, 66, 25, &[(1, 1)], 41), vec![Scan::seq(&[0]).ri(r(0))]),
        1 => (dct(0, 50, 35, &[(2, 2), (1, 1), (1, 1)], 42), vec![Scan::seq(&[0, 1, 2]).ri(r(0))]),
        2 => (dct(1, 34, 18, &[(2, 1), (1, 1), (1, 1)], 43), (0..3).map(|c| Scan::seq(&[c]).ri(r(c))).collect()),
        3 => (dct(2, 50, 18, &[(1, 1)], 44), prog_script_gray().into_iter().enumerate().map(|(i, s)| s.ri(r(i))).collect()),
        4 => (dct(2, 35, 34, &[(2, 2), (1, 1), (1, 1)], 45), prog_script_colour().into_iter().enumerate().map(|(i, s)| s.ri(r(i))).collect()),
        5 => (dct(0, 150, 17, &[(2, 1), (1, 1), (1, 1)], 46), vec![Scan::seq(&[0, 1, 2]).ri(r(0))]),
        6 => (lossless(8, 3, 20, 1, 47), vec![Scan::lossless(&[0], 1, 0).ri(3 * r(0))]),
        7 => (lossless(12, 3, 20, 1, 48), vec![Scan::lossless(&[0], 4, 0).ri(3 * r(0))]),
        8 => (lossless(8, 2, 19, 3, 49), vec![Scan::lossless(&[0, 1, 2], 7, 1).ri(2 * r(0))]),
        9 => (lossless(16, 2, 19, 3, 50), (0..3).map(|c| Scan::lossless(&[c], [1, 5, 6][c], 0).ri(2 * r(c))).collect()),
        // empty blocks: long end-of-band runs broken by the restarts
        10 => {
            let mut img = Img::new(2, 200, 16, &[(1, 1)]);
            img.comps[0].blocks[3][5] = 3;
            img.comps[0].blocks[40][9] = -4;
            (img, vec![Scan::prog(&[0], 0, 0, 0, 0).ri(r(0)), Scan::prog(&[0], 1, 63, 0, 1).ri(r(1)), Scan::prog(&[0], 1, 63, 1, 0).ri(r(2))])
        }
        11 => (dct(0, 130, 130, &[(1, 1)], 51), vec![Scan::seq(&[0]).ri(r(0))]),
        // four components, together and in pairs
        12 => (dct(0, 34, 18, &[(1, 1), (1, 1), (1, 1), (1, 1)], 52), vec![Scan::seq(&[0, 1, 2, 3]).ri(r(0))]),
        13 => (dct(2, 34, 18, &[(2, 1), (1, 1), (1, 1), (2, 1)], 53), prog_script_four().into_iter().enumerate().map(|(i, s)| s.ri(r(i))).collect()),
        14 => (dct(1, 25, 34, &[(1, 2), (1, 1), (1, 2), (1, 1)], 54), vec![Scan::seq(&[0, 1]).ri(r(0)), Scan::seq(&[2, 3]).ri(r(1))]),
        15 => (lossless(8, 2, 19, 4, 55), vec![Scan::lossless(&[0, 1, 2, 3], 2, 0).ri(2 * r(0))]),
        16 => (dct(0, 33, 20, &[(1, 1), (1, 1), (1, 1)], 56), vec![Scan::seq(&[0]).ri(r(0)), Scan::seq(&[1, 2]).ri(r(1))]),
        _ => (lossless(10, 3, 12, 3, 57), vec![Scan::lossless(&[0, 2], 3, 0).ri(3 * r(0)), Scan::lossless(&[1], 6, 0).ri(3 * r(1))]),
    }
}
const KINDS: usize = 18;
fn prog_script_four() -> Vec<Scan> {
    let mut v = vec![Scan::prog(&[0, 1, 2, 3], 0, 0, 0, 1)];
    for c in 0..4 {
        v.push(Scan::prog(&[c], 1, 63, 0, 0));
    }
    v.push(Scan::prog(&[0, 1, 2, 3], 0, 0, 1, 0));
    v
}
/// largest number of MCUs (in units of the interval) of any scan
fn mcus(kind: usize) -> usize {
    let (img, scans) = make(kind, &[0]);
    if img.sof == 3 {
        return img.h;
    }
    scans.iter().map(|s| mcu_blocks(&img, s).len()).max().unwrap()
}
/// Offsets of the restart markers of a stream.
fn rsts(bytes: &[u8], from: usize) -> Vec<usize> {
    // data bytes FF are stuffed, so FF D0..D7 inside the scans are markers; headers contain none by construction
    let mut v = vec![];
    let mut i = from;
    let mut in_scan = false;
    while i + 1 < bytes.len() {
        if bytes[i] != 0xFF {
            i += 1;
            continue;
        }
        let m = bytes[i + 1];
        if m == 0 {
            i += 2;
        } else if (0xD0..=0xD7).contains(&m) {
            assert!(in_scan);
            v.push(i);
            i += 2;
        } else if m == 0xD8 || m == 0xD9 {
            i += 2;
        } else {
            in_scan = m == 0xDA;
            i += 2 + ((bytes[i + 2] as usize) << 8 | bytes[i + 3] as usize);
        }
    }
    v
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    let max: Vec<usize> = (0..KINDS).map(mcus).collect();
    let mx = max.clone();
    models.push(model("every restart interval", move |ctx| {
        let k = ctx.choose(KINDS);
        let ri = 1 + ctx.choose(mx[k] + 2);
        let vs: &[V] = if ctx.thorough() || k == 5 { &ALLV } else { &[V::Rayon] };
        let (img, scans) = make(k, &[ri]);
        let a = stream(&img, &qts(), &scans);
        let (img0, scans0) = make(k, &[0]);
        let b = stream(&img0, &qts(), &scans0);
        ctx.state(&a);
        ctx.describe(|| format!("kind {k} interval {ri}"));
        for &v in vs {
            let y = must(&dec(ctx, v, &b, &Opts::default()), "without restarts")?;
            let x = must(&dec(ctx, v, &a, &Opts::default()), &format!("{v:?} kind {k} interval {ri}"))?;
            ensure!(x == y, "pixels", "{v:?} kind {k}: interval {ri} differs from no restarts at {:?}", first_diff(&x, &y));
        }
        Ok(())
    }));
    models.push(model("huge restart intervals", move |ctx| {
        let k = ctx.choose(KINDS);
        let ri = ctx.pick(&[255usize, 256, 257, 511, 512, 1000, 32767, 32768, 65535]);
        let (img, scans) = make(k, &[1]);
        let f = if img.sof == 3 { img.w } else { 1 };
        if ri % f != 0 {
            return Ok(());
        }
        let scans: Vec<Scan> = scans.into_iter().map(|s| s.ri(ri)).collect();
        let a = stream(&img, &qts(), &scans);
        let (img0, scans0) = make(k, &[0]);
        let b = stream(&img0, &qts(), &scans0);
        ctx.state(&a);
        let y = must(&dec(ctx, V::Rayon, &b, &Opts::default()), "without restarts")?;
        let x = must(&dec(ctx, V::Rayon, &a, &Opts::default()), &format!("kind {k} interval {ri}"))?;
        ensure!(x == y, "pixels", "kind {k}: interval {ri} differs from no restarts at {:?}", first_diff(&x, &y));
        Ok(())
    }));
    models.push(model("different intervals in successive scans", move |ctx| {
        let k = ctx.pick(&[2usize, 3, 4, 9, 10, 13, 14, 16, 17]);
        let ris: Vec<usize> = (0..3).map(|_| ctx.pick(if ctx.thorough() { &[0usize, 1, 2, 3, 5, 7, 11][..] } else { &[0, 1, 3, 7][..] })).collect();
        let (img, scans) = make(k, &ris);
        let a = stream(&img, &qts(), &scans);
        let (img0, scans0) = make(k, &[0]);
        let b = stream(&img0, &qts(), &scans0);
        ctx.state(&a);
        ctx.describe(|| format!("kind {k} intervals {ris:?}"));
        for v in ALLV {
            let y = must(&dec(ctx, v, &b, &Opts::default()), "without restarts")?;
            let x = must(&dec(ctx, v, &a, &Opts::default()), &format!("{v:?} kind {k} intervals {ris:?}"))?;
            ensure!(x == y, "pixels", "{v:?} kind {k}: intervals {ris:?} differ from no restarts at {:?}", first_diff(&x, &y));
        }
        Ok(())
    }));
    models.push(model("every restart marker replaced or removed", move |ctx| {
        let k = ctx.choose(KINDS);
        if k == 11 {
            return Ok(());
        }
        let ri = ctx.pick(if ctx.thorough() { &[1usize, 2, 3, 5, 9][..] } else { &[1, 4][..] });
        let (img, scans) = make(k, &[ri]);
        let a = stream(&img, &qts(), &scans);
        let from = 2;
        let rs = rsts(&a, from);
        if rs.is_empty() {
            return Ok(());
        }
        let at = ctx.pick(&rs);
        let mut m = a.clone();
        // 0 = removed; otherwise the marker byte
        let marker = ctx.choose(255);
        if marker == a[at + 1] as usize {
            return Ok(());
        }
        if marker == 0 {
            m.drain(at..at + 2);
        } else {
            m[at + 1] = marker as u8;
        }
        ctx.state((k, ri, at, marker));
        let what = format!("kind {k} interval {ri}: RST{} at {at} of {} {}", a[at + 1] - 0xD0, a.len(), if marker == 0 { "removed".into() } else { format!("replaced by FF {marker:02X}") });
        ctx.describe(|| what.clone());
        let o = dec(ctx, V::Rayon, &m, &Opts::default());
        ensure!(matches!(o.res, Err(E::Format(_))), "accepted", "{what}: {}", o.brief());
        Ok(())
    }));
    models.push(model("fill bytes before, and restart after the data", move |ctx| {
        let k = ctx.choose(KINDS);
        let ri = ctx.pick(&[1usize, 2, 5]);
        let (img, scans) = make(k, &[ri]);
        let a = stream(&img, &qts(), &scans);
        let rs = rsts(&a, 2);
        let mode = ctx.choose(8);
        let mut m = vec![];
        let fill = [1, 9, 0, 2, 254, 255, 256, 65536][mode];
        match mode {
            0 | 1 | 3.. => {
                // fill bytes before every restart marker
                let mut last = 0;
                for &r in &rs {
                    m.extend_from_slice(&a[last..r]);
                    m.extend(std::iter::repeat(0xFF).take(fill));
                    last = r;
                }
                m.extend_from_slice(&a[last..]);
            }
            _ => {
                m.extend_from_slice(&a[..a.len() - 2]);
                m.extend_from_slice(&[0xFF, 0xD0 + (rs.len() % 8) as u8]);
                m.extend_from_slice(&EOI);
            }
        }
        ctx.state(&m);
        ctx.describe(|| format!("kind {k} interval {ri} mode {mode}"));
        let y = must(&dec(ctx, V::Rayon, &a, &Opts::default()), "plain")?;
        let x = must(&dec(ctx, V::Rayon, &m, &Opts::default()), &format!("kind {k} interval {ri} mode {mode}"))?;
        ensure!(x == y, "pixels", "kind {k} interval {ri} mode {mode}: differs at {:?}", first_diff(&x, &y));
        Ok(())
    }));
    models.push(model("more than 65535 MCUs", move |ctx| {
        let k = ctx.choose(5);
        let (ris, lossy): (&[usize], bool) = match k {
            0 | 1 => (if ctx.thorough() { &[1, 7, 8, 255, 256, 257, 258, 4096, 32767, 32768, 65535] } else { &[8, 257, 4096, 65535] }, true),
            2 => (&[1, 255, 65535], true),
            _ => (&[300, 600, 65400], false),
        };
        let ri = ctx.pick(ris);
        let sparse = |sof: u8, w: usize, h: usize, f: &[(usize, usize)]| {
            let mut img = Img::new(sof, w, h, f);
            fill_blocks(&mut img, |c, x, y| {
                let mut b = [0; 64];
                let r = mix(c as u64, x as u64, y as u64);
                b[0] = (r % 64) as i16 - 32;
                if r % 7 == 0 {
                    b[1] = (r / 64 % 9) as i16 - 4;
                }
                b
            });
            img
        };
        let build = |ri: usize| match k {
            0 => stream(&sparse(0, 2056, 2056, &[(1, 1)]), &qts(), &[Scan::seq(&[0]).ri(ri)]),
            1 => stream(&sparse(2, 2056, 2056, &[(1, 1)]), &qts(), &[Scan::prog(&[0], 0, 0, 0, 0).ri(ri), Scan::prog(&[0], 1, 63, 0, 1).ri(ri), Scan::prog(&[0], 1, 63, 1, 0).ri(ri)]),
            2 => stream(&sparse(0, 2050, 2050, &[(1, 1); 3]), &qts(), &[Scan::seq(&[0]).ri(ri), Scan::seq(&[1, 2]).ri(ri)]),
            3 => stream(&lossless(8, 300, 300, 1, 3), &qts(), &[Scan::lossless(&[0], 4, 0).ri(ri)]),
            _ => stream(&lossless(12, 300, 300, 3, 4), &qts(), &[Scan::lossless(&[0, 1], 7, 0).ri(ri), Scan::lossless(&[2], 1, 0).ri(ri)]),
        };
        let (a, b) = (build(ri), build(0));
        ctx.state((k, ri));
        ctx.describe(|| format!("{} interval {ri}", ["2056x2056 grey", "2056x2056 progressive", "2050x2050 colour", "300x300 lossless", "300x300 lossless, 3 components"][k]));
        let o = Opts { scale: lossy.then_some((1, 1)), ..Default::default() };
        let y = must(&dec(ctx, V::Rayon, &b, &o), "without restarts")?;
        let x = must(&dec(ctx, V::Rayon, &a, &o), &format!("kind {k} interval {ri}"))?;
        ensure!(x == y, "pixels", "more than 65535 MCUs, kind {k}: interval {ri} differs from no restarts at {:?}", first_diff(&x, &y));
        Ok(())
    }));
    let _ = th;
    super::spec(
        "18 images (sequential, progressive, lossless; one to four components, interleaved, in pairs or apart; up to 289 MCUs) x every restart interval from 1 to past the end; 5 images of more than 65535 MCUs; 0..65536 fill bytes before the markers; every restart marker removed or replaced by each other marker byte",
        &["lossless intervals are whole lines, as T.81 requires"],
        models,
    )
}
