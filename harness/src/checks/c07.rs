use super::*;
use crate::refimg::*;

const FSETS1: &[(usize, usize)] = &[(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 3), (4, 1), (1, 4), (4, 2), (2, 4), (4, 4)];

fn case(ctx: &mut Ctx, factors: &[(usize, usize)], ws: &[usize], hs: &[usize], ris: &[usize], vs: &[V]) -> R {
    let n = factors.len();
    let parts = ordered_partitions(n);
    let part = ctx.pick(&parts);
    let w = ctx.pick(ws);
    let h = ctx.pick(hs);
    let sofn = ctx.pick(&[0u8, 1]);
    let ri = ctx.pick(ris);
    let mut img = Img::new(sofn, w, h, factors);
    for (i, c) in img.comps.iter_mut().enumerate() {
        c.tq = i as u8 % 4;
    }
    if part.iter().any(|g| !legal_group(&img, g)) {
        return Ok(());
    }
    let mut q = q_flat(8);
    for t in 0..4 {
        for k in 0..64 {
            q[t][k] = 6 + 2 * t as u16 + (k as u16 % 5);
        }
    }
    fill_blocks(&mut img, |c, x, y| busy_block(1, c, x, y));
    let scans: Vec<Scan> = part
        .iter()
        .map(|g| {
            let mut s = Scan::seq(g).ri(ri).huff(Huff::Skew);
            for (i, &c) in g.iter().enumerate() {
                s.td[i] = c as u8 % 2;
                s.ta[i] = (c as u8 + 1) % 2;
            }
            s
        })
        .collect();
    let bytes = stream(&img, &q, &scans);
    ctx.state((&bytes, n));
    ctx.describe(|| format!("{n} comps {factors:?} {w}x{h} sof{sofn} ri {ri} scans {part:?} ({} bytes)", bytes.len()));
    let pl = planes(&img, &q, 8);
    let want = interleaved(&img, &pl, 8, false);
    let alt = interleaved(&img, &pl, 8, true);
    let tol = if factors.iter().all(|f| *f == factors[0]) { 3.0 } else { 4.0 };
    // the fully separated coding of the same coefficients
    let mut first: Option<Vec<u8>> = None;
    let sep: Vec<Scan> = (0..n).map(|c| Scan::seq(&[c])).collect();
    let ref_bytes = stream(&img, &q, &sep);
    for &v in vs {
        let out = dec_raw(ctx, v, &bytes, n, None);
        let d = must(&out, "valid sequential image")?;
        ctx.outcome(&d);
        ensure!(d.len() == want.len(), "len", "{v:?}: {} bytes, expected {}", d.len(), want.len());
        let (m, at) = max_dev2(&d, &want, &alt);
        ensure!(m <= tol, "pixels", "{v:?} {factors:?} {w}x{h} ri {ri} scans {part:?}: sample {} of component {} is {} instead of {:.2}", at / n, at % n, d[at], want[at]);
        if first.is_none() {
            let r = dec_raw(ctx, v, &ref_bytes, n, None);
            let r = must(&r, "valid sequential image (separate scans)")?;
            ensure!(r == d, "grouping", "{factors:?} {w}x{h}: scans {part:?} differ from separate scans at {:?}", first_diff(&d, &r));
            first = Some(d);
        }
    }
    Ok(())
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let (ws, hs): (Vec<usize>, Vec<usize>) = if th {
        ((1..=36).collect(), vec![1, 7, 8, 9, 15, 16, 17, 24, 25, 31, 32, 33, 36, 40])
    } else {
        (vec![1, 8, 9, 17, 33], vec![1, 8, 16, 17, 40])
    };
    let (w1, h1): (Vec<usize>, Vec<usize>) = if th { ((1..=70).collect(), (1..=70).collect()) } else { ((1..=34).collect(), vec![1, 7, 8, 9, 16, 17, 25, 33, 65]) };
    let mut models = vec![];
    models.push(model("gray: all factors x sizes", move |ctx| {
        let f = ctx.pick(FSETS1);
        case(ctx, &[f], &w1, &h1, &[0, 3], &[V::Rayon])
    }));
    // all integer-ratio factor triples
    let all: Vec<(usize, usize)> = (1..=4).flat_map(|h| (1..=4).map(move |v| (h, v))).collect();
    let mut triples = vec![];
    for &a in &all {
        for &b in &all {
            for &c in &all {
                if integer_ratios(&[a, b, c]) {
                    triples.push([a, b, c]);
                }
            }
        }
    }
    let common: Vec<[(usize, usize); 3]> = vec![
        [(1, 1), (1, 1), (1, 1)],
        [(2, 1), (1, 1), (1, 1)],
        [(1, 2), (1, 1), (1, 1)],
        [(2, 2), (1, 1), (1, 1)],
        [(4, 1), (1, 1), (1, 1)],
        [(2, 2), (2, 1), (1, 2)],
        [(4, 2), (2, 1), (1, 1)],
        [(1, 1), (2, 2), (1, 2)],
        [(3, 1), (1, 1), (1, 1)],
        [(2, 4), (1, 2), (2, 1)],
    ];
    let (ws2, hs2) = (ws.clone(), hs.clone());
    models.push(model("colour: common factors x sizes x groupings", move |ctx| {
        let f = ctx.pick(&common);
        case(ctx, &f, &ws2, &hs2, if ctx.thorough() { &[0, 1, 2, 5] } else { &[0, 2] }, &ALLV)
    }));
    let (ws3, hs3) = if th { (vec![1, 5, 17, 33], vec![9, 40]) } else { (vec![19], vec![41]) };
    models.push(model("colour: every integer-ratio factor triple", move |ctx| {
        let f = ctx.pick(&triples);
        case(ctx, &f, &ws3, &hs3, &[0], &[V::Rayon])
    }));
    let quads: Vec<[(usize, usize); 4]> = vec![
        [(1, 1); 4],
        [(2, 1), (1, 1), (1, 1), (2, 1)],
        [(2, 2), (1, 1), (1, 1), (2, 2)],
        [(1, 2), (1, 1), (1, 2), (1, 1)],
        [(2, 2), (2, 1), (1, 2), (1, 1)],
        [(4, 2), (1, 1), (2, 1), (4, 1)],
    ];
    let (ws4, hs4) = if th { (vec![1, 8, 9, 17, 33], vec![1, 9, 17, 33]) } else { (vec![9, 33], vec![17]) };
    models.push(model("four components", move |ctx| {
        let f = ctx.pick(&quads);
        case(ctx, &f, &ws4, &hs4, if ctx.thorough() { &[0, 1, 3] } else { &[0, 1] }, &ALLV)
    }));
    // wider than 128 pixels: the parallel workers
    let (ws5, hs5) = if th { (vec![129, 130, 144, 160, 257], vec![1, 17, 40, 100]) } else { (vec![129, 150], vec![20, 36]) };
    models.push(model("parallel workers (width > 128)", move |ctx| {
        let f: Vec<(usize, usize)> = ctx.pick(&[
            vec![(1, 1)],
            vec![(2, 2)],
            vec![(1, 1), (1, 1), (1, 1)],
            vec![(2, 2), (1, 1), (1, 1)],
            vec![(2, 1), (1, 2), (1, 1)],
            vec![(1, 4), (1, 2), (1, 1)],
            vec![(2, 1), (1, 1), (1, 1), (2, 1)],
        ]);
        case(ctx, &f, &ws5, &hs5, &[0, 7], &ALLV)
    }));
    // more than 65535 blocks
    models.push(model("more than 65535 MCUs", move |ctx| {
        let f: Vec<(usize, usize)> = ctx.pick(&[vec![(1, 1)], vec![(1, 1), (1, 1), (1, 1)], vec![(2, 1), (1, 1), (1, 1)]]);
        let (w, h) = ctx.pick(&[(2056usize, 2056usize), (65535, 72)]);
        if f.len() > 1 && !ctx.thorough() {
            return Ok(());
        }
        case(ctx, &f, &[w], &[h], &[0], &[V::Rayon])
    }));
    // extreme dimensions
    models.push(model("extreme dimensions", move |ctx| {
        let tall = ctx.flag();
        let big = ctx.pick(if ctx.thorough() { &[65535usize, 65530, 65528, 32769][..] } else { &[65535, 32769] });
        let f: Vec<(usize, usize)> = ctx.pick(&[vec![(1, 1)], vec![(1, 1), (1, 1), (1, 1)], vec![(2, 2), (1, 1), (1, 1)], vec![(3, 3), (1, 1), (1, 1)]]);
        let (w, h) = if tall { (3, big) } else { (big, 3) };
        case(ctx, &f, &[w], &[h], &[0], &[V::Rayon])
    }));
    super::spec(
        "components 1/3/4; all integer-ratio sampling factor triples; all ordered groupings into scans; listed sizes up to 40 (gray 70), 129..257 wide for the worker paths, up to 65535 in one dimension, and more than 65535 MCUs; restart intervals 0..7",
        &["contents of blocks are one fixed pseudo-random assignment per position; C12 and C22 vary the values"],
        models,
    )
}
