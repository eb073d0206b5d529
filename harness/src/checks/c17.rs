use super::bases::*;
use super::*;

#[derive(Clone, Debug, Hash)]
struct Chunk {
    seq: u8,
    num: u8,
    data: Vec<u8>,
}
fn assemble(ch: &[Chunk]) -> Option<Vec<u8>> {
    let c: Vec<&Chunk> = ch.iter().filter(|c| !c.data.is_empty()).collect();
    let n = c.len();
    if n == 0 || n > 255 || c.iter().any(|x| x.num as usize != n) {
        return None;
    }
    let mut out = vec![];
    for k in 1..=n {
        let mut it = c.iter().filter(|x| x.seq as usize == k);
        let x = it.next()?;
        if it.next().is_some() {
            return None;
        }
        out.extend_from_slice(&x.data);
    }
    Some(out)
}
fn base(kind: usize) -> (Vec<Vec<u8>>, Vec<usize>) {
    let (img, scans) = match kind {
        0 => (dct(0, 8, 8, &[(1, 1)], 51), vec![Scan::seq(&[0])]),
        1 => (dct(2, 9, 8, &[(1, 1); 3], 52), vec![Scan::prog(&[0, 1, 2], 0, 0, 0, 0), Scan::prog(&[1], 1, 63, 0, 0)]),
        _ => (lossless(8, 3, 2, 1, 1), vec![Scan::lossless(&[0], 1, 0)]),
    };
    let segs = segments(&img, &qts(), &scans);
    // places: after SOI, just before the frame header, just after it, before the last scan, before EOI
    let sof = segs.iter().position(|s| s[1] >= 0xC0 && s[1] <= 0xC3).unwrap();
    let sos = segs.iter().rposition(|s| s[1] == 0xDA).unwrap();
    let n = segs.len();
    (segs, vec![1, sof, sof + 1, sos, n - 1])
}
fn check(ctx: &mut Ctx, v: V, kind: usize, chunks: &[Chunk], places: &[usize], others: bool) -> R {
    let (segs, spots) = base(kind);
    let plain = segs.concat();
    let mut out: Vec<Vec<u8>> = vec![];
    for (i, s) in segs.iter().enumerate() {
        for (c, &p) in chunks.iter().zip(places) {
            if spots[p] == i {
                if others {
                    out.push(app(2, b"FPXR\0 not a profile"));
                }
                out.push(icc(c.seq, c.num, &c.data));
                if others {
                    out.push(exif(b"II*\0ICC_PROFILE\0\x01\x01"));
                }
            }
        }
        out.push(s.clone());
    }
    // chunks in stream order, for the model
    let mut order: Vec<(usize, usize)> = places.iter().enumerate().map(|(i, &p)| (spots[p], i)).collect();
    order.sort();
    let ordered: Vec<Chunk> = order.iter().map(|&(_, i)| chunks[i].clone()).collect();
    let want = assemble(&ordered);
    let bytes = out.concat();
    ctx.state(&bytes);
    let brief: Vec<(u8, u8, usize)> = chunks.iter().map(|c| (c.seq, c.num, c.data.len())).take(8).collect();
    ctx.describe(|| format!("chunks (number, count, length) {brief:?} at {places:?}, profile {:?}", want.as_ref().map(|w| w.len())));
    let o = dec(ctx, v, &bytes, &Opts::default());
    let p = dec(ctx, v, &plain, &Opts::default());
    ctx.outcome(&o.meta.icc);
    ensure!(o.res == p.res && o.info() == p.info() && p.res.is_ok(), "decoding", "{v:?} chunks {brief:?} change the image: {} / {}", o.brief(), p.brief());
    ensure!(o.meta.icc == want, "profile", "{v:?} {} chunks (number, count, length) {brief:?} at {places:?}: profile {:?} bytes, expected {:?}; first difference {:?}", chunks.len(), o.meta.icc.as_ref().map(|x| x.len()), want.as_ref().map(|x| x.len()), o.meta.icc.as_ref().zip(want.as_ref()).map(|(a, b)| first_diff(a, b)));
    Ok(())
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    models.push(model("every list of chunks: numbers x counts", move |ctx| {
        let k = ctx.range(0, if ctx.thorough() { 4 } else { 3 });
        let vals: &[u8] = if k == 4 { &[0, 1, 2, 3, 4] } else { &[0, 1, 2, 3, 4, 254, 255] };
        let chunks: Vec<Chunk> = (0..k).map(|i| Chunk { seq: ctx.pick(vals), num: if k == 4 { ctx.pick(&[3u8, 4, 5]) } else { ctx.pick(vals) }, data: vec![0x40 + i as u8; i + 1] }).collect();
        let places = vec![0; k];
        check(ctx, V::Rayon, 0, &chunks, &places, false)
    }));
    models.push(model("placement in the stream", move |ctx| {
        let kind = ctx.choose(3);
        let k = ctx.range(1, 3);
        let perm = ctx.choose([1, 2, 6][k - 1]);
        let mut seqs: Vec<u8> = (1..=k as u8).collect();
        // the perm-th permutation
        let mut p = perm;
        let mut s = vec![];
        while !seqs.is_empty() {
            let i = p % seqs.len();
            p /= seqs.len();
            s.push(seqs.remove(i));
        }
        let bad = ctx.choose(4); // all good, one duplicate, one wrong count, one missing
        let mut chunks: Vec<Chunk> = s.iter().map(|&q| Chunk { seq: q, num: k as u8, data: vec![0x60 + q; 3 + q as usize] }).collect();
        match bad {
            1 => chunks[k - 1].seq = chunks[0].seq,
            2 => chunks[0].num += 1,
            3 => {
                chunks.remove(0);
            }
            _ => {}
        }
        let places: Vec<usize> = chunks.iter().map(|_| ctx.choose(5)).collect();
        let others = ctx.flag();
        let v = ctx.pick(&ALLV);
        check(ctx, v, kind, &chunks, &places, others)
    }));
    models.push(model("n = 1..255 (and 256) chunks: orders and defects", move |ctx| {
        let n = ctx.range(1, 256);
        let mut chunks: Vec<Chunk> = (1..=n).map(|q| Chunk { seq: q as u8, num: n as u8, data: vec![q as u8, (q * 7) as u8, n as u8][..1 + q % 3].to_vec() }).collect();
        match ctx.choose(5) {
            0 => {}
            1 => chunks.reverse(),
            2 => chunks.rotate_left(n / 2),
            3 => {
                let (a, b): (Vec<Chunk>, Vec<Chunk>) = chunks.into_iter().partition(|c| c.seq % 2 == 0);
                chunks = [a, b].concat();
            }
            _ => {
                chunks.sort_by_key(|c| mix(c.seq as u64, 3, 4));
            }
        }
        let spots: &[usize] = if ctx.thorough() { &[0, 1, 2, 3, 4, 5, 6] } else { &[0, 1, 3] };
        let i = [0, n / 2, n - 1][ctx.choose(3)];
        match ctx.choose(spots.len() + 1) {
            0 => {}
            1 => {
                chunks.remove(i);
            }
            2 => chunks[i].num = chunks[i].num.wrapping_add(1),
            3 => chunks[i].seq = chunks[(i + 1) % n].seq,
            4 => chunks[i].seq = 0,
            5 => chunks[i].data.clear(),
            6 => chunks.push(Chunk { seq: n.min(255) as u8, num: n as u8, data: vec![9] }),
            _ => chunks[i].num = 0,
        }
        let places = vec![0; chunks.len()];
        check(ctx, V::Rayon, 0, &chunks, &places, false)
    }));
    models.push(model("payload lengths", move |ctx| {
        let lens: Vec<usize> = if ctx.thorough() { (0..=700).chain((700..65519).step_by(97)).chain(65400..=65519).collect() } else { (0..=130).chain([200, 255, 256, 257, 511, 512, 4096, 32767, 32768, 65517, 65518, 65519]).collect() };
        let l = ctx.pick(&lens);
        let m = ctx.pick(&[1usize, 2, 65519]);
        let two = ctx.flag();
        let mk = |s: u8, n: u8, l: usize| Chunk { seq: s, num: n, data: (0..l).map(|i| mix(i as u64, s as u64, l as u64) as u8).collect() };
        let chunks = if two { vec![mk(2, 2, l), mk(1, 2, m)] } else { vec![mk(1, 1, l)] };
        let places = vec![0; chunks.len()];
        check(ctx, V::Rayon, 0, &chunks, &places, false)
    }));
    models.push(model("altered signatures and other segments", move |ctx| {
        // a good one-chunk profile and a segment whose signature differs in one byte, or another APPn
        let mut s = icc(1, 1, b"other data");
        let kind = ctx.choose(3);
        let i = ctx.choose(12);
        let x = ctx.range(1, 255) as u8;
        match kind {
            0 => s[4 + i] ^= x,
            1 => {
                let n = x % 16;
                if n == 2 {
                    return Ok(());
                }
                s[1] = 0xE0 + n;
            }
            _ => {
                // signature cut short
                s = app(2, &b"ICC_PROFILE\0\x01\x01"[..i + 2]);
            }
        }
        let first = ctx.flag();
        let alone = ctx.flag();
        let (segs, _) = base(0);
        let mut head = vec![s];
        if !alone {
            head.insert(if first { 0 } else { 1 }, icc(1, 1, b"profile"));
        }
        let bytes = with_head(segs, head).concat();
        ctx.state(&bytes);
        let o = dec(ctx, V::Rayon, &bytes, &Opts::default());
        must(&o, "image with look-alike segment")?;
        let want = if alone { None } else { Some(b"profile".to_vec()) };
        ensure!(o.meta.icc == want, "look-alike", "look-alike kind {kind} byte {i} xor {x:#x}: profile {:?}", o.meta.icc);
        Ok(())
    }));
    let _ = th;
    super::spec(
        "all lists of up to 3 chunks with number and count from 7 values (thorough: 4 chunks); all placements of up to 3 chunks in 5 places of 3 kinds of stream; n = 1..256 x 5 orders x defects; payload lengths to the segment limit; all one-byte changes of the signature",
        &["chunks without payload do not count as chunks"],
        models,
    )
}
