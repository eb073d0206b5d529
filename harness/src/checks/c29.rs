//! C29: memory is bounded by the image and the kept metadata, and given back.
use super::bases::*;
use super::*;
use crate::alloc;
use std::sync::Arc;
use crate::iso::in_child;

/// What one session does to the heap: (ok, peak, kept), nothing else survives it.
fn session_mem(v: V, bytes: &[u8], acts: &[Act]) -> (bool, isize, isize) {
    let ((ok, panic), peak, kept) = alloc::measure(|| {
        let rs = session(v, &mut SliceReader::new(bytes), acts);
        let ok = rs.iter().all(|r| matches!(r, Res::Unit(Ok(_)) | Res::Dims(Ok(_)) | Res::Meta(_) | Res::Data(Ok(_))));
        (ok, matches!(rs.last(), Some(Res::Panic(_))))
    });
    // unwinding keeps its own memory; panics are C01's subject
    (ok, if panic { 0 } else { peak }, if panic { 0 } else { kept })
}
/// The same counted over all threads, in a process of its own.
fn session_mem_all(v: V, bytes: &[u8], acts: &[Act]) -> Result<(bool, isize, isize), Fail> {
    let r = in_child(|| {
        alloc::count_all();
        let _ = session_mem(v, bytes, acts); // what is set up once
        let n0 = alloc::all_now();
        alloc::all_peak(true);
        let (ok, _, _) = session_mem(v, bytes, acts);
        let peak = alloc::all_peak(false) - n0;
        let mut kept = alloc::all_now() - n0;
        for _ in 0..400 {
            if kept <= 0 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(10));
            kept = alloc::all_now() - n0;
        }
        format!("{} {peak} {kept}", ok as u32)
    });
    let s = r.or_else(|e| fail("child", e))?;
    let n: Vec<isize> = s.split(' ').filter_map(|x| x.parse().ok()).collect();
    if n.len() != 3 {
        return fail("child", s);
    }
    Ok((n[0] == 1, n[1], n[2]))
}
/// Judge one session against a bound; work handed to other threads is counted in a second run.
fn judge(ctx: &mut Ctx, v: V, bytes: &[u8], acts: &[Act], must_pass: bool, bound: usize) -> R {
    ctx.stream(bytes);
    ctx.trace();
    let (ok, mut peak, mut kept) = session_mem(v, bytes, acts);
    if std::env::var_os("MC_MEM").is_some() {
        println!("{peak:>9} of {bound:>9} = {:.2} kept {kept} {} bytes {acts:?}", peak as f64 / bound as f64, bytes.len());
    }
    if peak > bound as isize || kept > 0 {
        let (_, p, k) = session_mem_all(v, bytes, acts)?;
        // threads of a pool keep buffers of their own
        (peak, kept) = (p.min(peak), k.min(kept));
    }
    ctx.outcome(ok);
    ensure!(ok || !must_pass, "refused", "{v:?} {acts:?}: a valid stream is refused");
    ensure!(peak <= bound as isize, "peak", "{v:?} {acts:?}: {peak} bytes were in use at once, for an image and metadata that need at most {bound}");
    ensure!(kept <= 0, "kept", "{v:?} {acts:?}: {kept} bytes are still in use after the decoder and its results are gone");
    Ok(())
}
const TABLES: usize = 96 << 10;
/// Twice what the image takes: planes at the scale used, the output, the coefficients that have to be kept.
fn need(img: &Img, s: usize) -> usize {
    let n = img.comps.len();
    if img.sof == 3 {
        return 2 * (n * img.w * img.h * 2 * 2 + n * img.w * img.h * 2) + TABLES;
    }
    let mut b = 0;
    for c in &img.comps {
        b += c.pw * c.ph * s * s; // plane
        b += c.pw * c.v * 64 * 2 * 2; // one row of blocks, and one on its way
        if img.sof == 2 {
            b += c.pw * c.ph * 64 * 2;
        }
        b += c.pw * s; // line buffers
    }
    b += n * cdiv(img.w * s, 8) * cdiv(img.h * s, 8);
    2 * b + TABLES
}
fn scales(w: usize, h: usize) -> [(usize, Option<(u16, u16)>); 4] {
    let r = |s: usize| Some((cdiv(w * s, 8) as u16, cdiv(h * s, 8) as u16));
    [(8, None), (4, r(4)), (2, r(2)), (1, r(1))]
}
fn acts(scale: Option<(u16, u16)>) -> Vec<Act> {
    scale.map(|(w, h)| Act::Scale(w, h)).into_iter().chain([Act::Decode]).collect()
}
fn plain(sof: u8, w: usize, h: usize, f: &[(usize, usize)]) -> Img {
    if sof == 3 {
        return lossless(16, w, h, f.len(), 1);
    }
    dct(sof, w, h, f, 4)
}
/// A frame of any size, without the contents (for headers only).
fn header(sof: u8, prec: u8, w: usize, h: usize, f: &[(usize, usize)]) -> Vec<u8> {
    let mut img = Img::new(sof, 1, 1, f);
    img.prec = prec;
    (img.w, img.h) = (w, h);
    [&[0xFF, 0xD8][..], &super::super::jpeg::sof(&img)].concat()
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    models.push(model("metadata of frames of every order of size", move |ctx| {
        let dims: &[usize] = if th { &[1, 7, 8, 9, 127, 128, 129, 255, 256, 1000, 4095, 4096, 16384, 32767, 32768, 65500, 65534, 65535] } else { &[1, 8, 129, 256, 4096, 32768, 65500, 65535] };
        let w = ctx.pick(dims);
        let h = ctx.pick(dims);
        let (sofn, prec) = ctx.pick(&[(0u8, 8u8), (1, 8), (2, 8), (3, 8), (3, 16)]);
        let f: Vec<(usize, usize)> = if sofn == 3 {
            ctx.pick(&[vec![(1, 1)], vec![(1, 1); 3], vec![(1, 1); 4]])
        } else {
            ctx.pick(&[vec![(1, 1)], vec![(1, 1); 3], vec![(2, 2), (1, 1), (1, 1)], vec![(4, 1), (1, 1), (1, 1)], vec![(2, 2), (1, 1), (1, 1), (2, 2)], vec![(4, 4), (1, 1), (1, 1), (4, 4)]])
        };
        let mut bytes = header(sofn, prec, w, h, &f);
        let meta = ctx.pick(&[0usize, 1, 2]);
        if meta > 0 {
            // metadata before the frame is kept
            let p = vec![7u8; if meta == 1 { 100 } else { 30_000 }];
            let m = [exif(&p), xmp(&p), icc(1, 1, &p), com(&p)].concat();
            bytes.splice(2..2, m);
        }
        let n = bytes.len();
        let acts = match ctx.choose(4) {
            0 => vec![Act::ReadInfo],
            1 => vec![Act::ReadInfo, Act::ReadInfo, Act::ReadInfo],
            2 => vec![Act::Scale(1, 1), Act::Scale(65535, 65535), Act::ReadInfo],
            _ => vec![Act::SetLimit(10), Act::SetCt(Ct::None), Act::ReadInfo, Act::Scale((w / 2) as u16, (h / 2) as u16)],
        };
        ctx.state((&bytes, &acts));
        ctx.describe(|| format!("SOF{sofn} {w}x{h} {prec} bit {f:?} metadata {meta} {acts:?}"));
        // (kept metadata, growth of the buffer it is read into)
        let bound = (64 << 10) + if meta > 0 { 3 * n } else { 0 };
        for v in ALLV {
            judge(ctx, v, &bytes, &acts, true, bound)?;
        }
        Ok(())
    }));
    models.push(model("images: processes x components x sizes x scales", move |ctx| {
        let sofn = ctx.pick(&[0u8, 1, 2, 3]);
        let f: Vec<(usize, usize)> = if sofn == 3 {
            ctx.pick(&[vec![(1, 1)], vec![(1, 1); 3], vec![(1, 1); 4]])
        } else {
            ctx.pick(&[vec![(1, 1)], vec![(2, 2)], vec![(1, 1); 3], vec![(2, 2), (1, 1), (1, 1)], vec![(1, 1), (2, 1), (1, 2)], vec![(1, 1); 4], vec![(2, 2), (1, 1), (1, 1), (2, 2)]])
        };
        let (w, h) = ctx.pick(if th { &[(8, 8), (16, 16), (17, 9), (64, 64), (128, 128), (127, 127), (100, 33), (1, 128), (128, 1), (5, 120), (120, 7), (96, 96), (33, 99)] } else { &[(8, 8), (17, 9), (128, 128), (127, 101), (1, 128), (128, 1), (120, 7)] });
        let n = f.len();
        let img = plain(sofn, w, h, &f);
        let all: Vec<usize> = (0..n).collect();
        let sep: Vec<Vec<usize>> = (0..n).map(|c| vec![c]).collect();
        let groups = if n > 1 && ctx.flag() { sep } else { vec![all] };
        let mut scans = vec![];
        for g in &groups {
            scans.push(match sofn {
                2 => Scan::prog(g, 0, 0, 0, 0),
                3 => Scan::lossless(g, 1, 0),
                _ => Scan::seq(g),
            });
        }
        if sofn == 2 {
            match ctx.choose(3) {
                0 => {}
                1 => scans.push(Scan::prog(&[0], 1, 63, 0, 0)),
                _ => (0..n).for_each(|c| scans.extend([Scan::prog(&[c], 1, 5, 0, 1), Scan::prog(&[c], 6, 63, 0, 0), Scan::prog(&[c], 1, 5, 1, 0)])),
            }
        }
        let bytes = stream(&img, &qts(), &scans);
        let sc = scales(w, h);
        let (s, req) = if sofn == 3 { sc[0] } else { ctx.pick(&sc) };
        let ct = ctx.flag();
        let mut a = acts(req);
        if ct {
            a.insert(0, Act::SetCt(Ct::None));
        }
        ctx.state((&bytes, &a));
        ctx.describe(|| format!("SOF{sofn} {w}x{h} {f:?} {groups:?} scale {s}"));
        for v in [V::Pi, V::Mpsc] {
            judge(ctx, v, &bytes, &a, true, need(&img, s))?;
        }
        Ok(())
    }));
    models.push(model("repeated segments and scans", move |ctx| {
        let sofn = ctx.pick(&[0u8, 2, 3]);
        let img = plain(sofn, 17, 9, &[(1, 1); 3]);
        let scans = match sofn {
            2 => vec![Scan::prog(&[0, 1, 2], 0, 0, 0, 0), Scan::prog(&[0], 1, 63, 0, 0)],
            3 => vec![Scan::lossless(&[0, 1, 2], 1, 0)],
            _ => vec![Scan::seq(&[0]), Scan::seq(&[1, 2])],
        };
        let mut segs = segments(&img, &qts(), &scans);
        let n = ctx.pick(&[1usize, 40, if th { 5000 } else { 1000 }]);
        let kind = ctx.choose(14);
        let tab = |class: u8, slot: u8| {
            let syms: Vec<u8> = if class == 0 { (0..12).collect() } else { (0..=250).collect() };
            let slot = if sofn == 0 { 1 } else { slot };
            dht(&HTable::build(class, slot, &syms, Huff::Long))
        };
        let (mut keeps, small) = (false, n.min(60));
        let (seg1, n) = match kind {
            0 => (dqt(3, 0, &qt(1)), n),
            1 => (dqt(3, 1, &qt(1)), n),
            2 => (tab(0, 3), n),
            3 => (tab(1, 3), n),
            4 => (dri(0), n),
            5 => (com(&[1; 3000]), n),
            6 => (app(9, &[1; 3000]), n),
            7 => (app(0, JFIF), n),
            8 => (vec![0xFF; 1000], n),
            9 => (app(13, &[5; 3000]), n),
            // what is kept once
            10 => (exif(&[9; 3000]), n),
            11 => (xmp(&[9; 3000]), n),
            // what is kept every time
            12 => (icc(1, 255, &[9; 3000]), small),
            _ => (segs.iter().find(|s| s[1] == 0xDA).unwrap().clone(), n.min(if sofn == 0 { 1000 } else { 1 })),
        };
        keeps |= kind == 12;
        // in front of the frame, before the first scan, or before the end
        let place = match ctx.choose(3) {
            0 => 1,
            1 => segs.iter().position(|s| s[1] == 0xDA).unwrap(),
            _ => segs.len() - 1,
        };
        if kind == 13 && place != segs.len() - 1 {
            return Ok(());
        }
        if kind == 8 {
            // fill bytes are part of the marker that follows
            let rep: Vec<u8> = seg1.iter().copied().cycle().take(seg1.len() * n).collect();
            segs.insert(place, rep);
        } else {
            segs.splice(place..place, std::iter::repeat(seg1.clone()).take(n));
        }
        // tables for the last scan repeated are still in effect
        let bytes = segs.concat();
        let v = ctx.pick(&[V::Pi, V::Mpsc]);
        ctx.state((sofn, kind, n, place, v));
        ctx.describe(|| format!("SOF{sofn}: {n} segments of kind {kind} at {place}"));
        let bound = need(&img, 8) + if keeps { 3 * n * seg1.len() } else { 16 << 10 };
        judge(ctx, v, &bytes, &[Act::Decode], kind != 13, bound)
    }));
    let b = Arc::new(bases());
    models.push(model("every truncation, every damaged byte: nothing is kept", {
        let b = b.clone();
        move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let v = ctx.pick(&[V::Pi, V::Mpsc]);
            let i = ctx.choose(base.bytes.len());
            let x = ctx.pick(if th { &[0u8, 1, 2, 4, 8, 16, 32, 64, 128, 255] } else { &[0u8, 1, 16, 255] });
            let mut m = base.bytes.clone();
            if x == 0 {
                m.truncate(i);
            } else {
                m[i] ^= x;
            }
            if super::c01::area(&m) > 1 << 14 {
                ctx.count("skipped_huge", 1);
                return Ok(());
            }
            let a = match ctx.choose(3) {
                0 => vec![Act::Decode],
                1 => vec![Act::ReadInfo, Act::Scale(3, 3), Act::Decode],
                _ => vec![Act::Decode, Act::Meta, Act::Decode],
            };
            ctx.state((base.name, v, i, x, &a));
            ctx.describe(|| format!("{} {i} ^ {x} {a:?}", base.name));
            // sampling factors up to 4x4 pad small images
            let bound = TABLES + (super::c01::area(&m) as usize + 32 * 32 + 128 * 32) * 4 * 8 * 2 + 8 * m.len();
            judge(ctx, v, &m, &a, false, bound)
        }
    }));
    let w = Arc::new(wide_bases());
    models.push(model("threads: peak, and nothing kept", move |ctx| {
        let base = &w[ctx.choose(w.len())];
        let v = ctx.pick(&ALLV);
        let cut = ctx.choose(if th { 9 } else { 4 });
        let mut m = base.bytes.clone();
        if cut > 0 {
            m.truncate(m.len() * cut / 9);
        }
        let sc = scales(base.img.w, base.img.h);
        let (s, req) = ctx.pick(&sc[..if th { 4 } else { 2 }]);
        let a = acts(req);
        ctx.stream(&m);
        ctx.state((base.name, v, cut, s));
        ctx.describe(|| format!("{} {v:?} cut {cut} scale {s}", base.name));
        ctx.trace();
        let (ok, peak, kept) = session_mem_all(v, &m, &a)?;
        ensure!(ok || cut > 0, "refused", "{v:?} {a:?}: a valid stream is refused");
        // helper threads may have the coefficients of the whole image in their queues
        let queued: usize = base.img.comps.iter().map(|c| c.pw * c.ph * 128).sum();
        let pool = if matches!(v, V::Rayon | V::PiRayon) { 256 << 10 } else { 0 };
        let bound = need(&base.img, s) + 2 * queued + pool;
        if std::env::var_os("MC_MEM").is_some() {
            println!("{peak:>9} of {bound:>9} kept {kept} {v:?} {}", base.name);
        }
        ensure!(peak <= bound as isize, "peak", "{v:?} {a:?}: {peak} bytes were in use at once, the image needs at most {bound}");
        ensure!(kept <= pool as isize / 4, "kept", "{v:?} {a:?}: {kept} bytes are still in use after the decoder and its results are gone");
        Ok(())
    }));
    models.push(model("many decodes in a row keep nothing", move |ctx| {
        let bs = wide_bases();
        let base = &bs[ctx.choose(bs.len())];
        let v = ctx.pick(&ALLV);
        let damaged = ctx.flag();
        let mut m = base.bytes.clone();
        if damaged {
            m.truncate(m.len() * 2 / 3);
        }
        ctx.stream(&m);
        ctx.state((base.name, v, damaged));
        ctx.describe(|| format!("{} {v:?} damaged {damaged}", base.name));
        ctx.trace();
        let k = if th { 200 } else { 40 };
        let s = in_child(|| {
            alloc::count_all();
            for _ in 0..k {
                session_mem(v, &m, &[Act::Decode]);
            }
            let n0 = alloc::all_now();
            for _ in 0..k {
                session_mem(v, &m, &[Act::Decode]);
            }
            let small = |x: isize| x < k * 100;
            for _ in 0..400 {
                if small(alloc::all_now() - n0) {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(10));
            }
            format!("{} {}", small(alloc::all_now() - n0) as u32, alloc::all_now() - n0)
        })
        .or_else(|e| fail("child", e))?;
        ensure!(s.starts_with('1'), "grows", "{v:?}: {k} more decodes leave {} bytes in use", &s[2..]);
        Ok(())
    }));
    super::spec(
        "header-only streams: 8x8 (thorough 18x18) dimensions up to 65535 x processes x components x histories; images up to 128x128 x processes x factors x groupings x 4 scales; up to 1000 (5000) repetitions of each of 14 segment kinds in 3 places; every truncation and 3 (9) changes of every byte of the base streams; wide images with threads and pools, whole and cut; 80 (400) decodes in a row",
        &["heap memory requested from the allocator is what is counted", "bounds are twice the planes, output, kept coefficients and metadata, plus 96 KB for tables (64 KB for metadata alone)"],
        models,
    )
}
