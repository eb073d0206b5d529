use super::bases::*;
use super::*;

/// A chain of scans that must stay in order: first scan of a band, then its refinements.
pub fn chain(comps: &[usize], ss: u8, se: u8, al: u8, huff: Huff, eob_max: usize) -> Vec<Scan> {
    let mk = |ah, a| {
        let mut s = Scan::prog(comps, ss, se, ah, a).huff(huff);
        s.eob_max = eob_max;
        s
    };
    let mut v = vec![mk(0, al)];
    for a in (0..al).rev() {
        v.push(mk(a + 1, a));
    }
    v
}
/// Every merge of the chains (each merge is one path of the choice tree). Chains with ss == 0 are
/// the DC chains; the first DC scan of a component comes before its AC scans.
pub fn merge(ctx: &mut Ctx, chains: &[Vec<Scan>]) -> Vec<Scan> {
    let mut pos = vec![0usize; chains.len()];
    let mut out = vec![];
    let mut dc_done = [false; 4];
    loop {
        let ready: Vec<usize> = (0..chains.len())
            .filter(|&i| pos[i] < chains[i].len() && (chains[i][0].ss == 0 || chains[i][0].comps.iter().all(|&c| dc_done[c])))
            .collect();
        if ready.is_empty() {
            return out;
        }
        let i = ready[ctx.choose(ready.len())];
        let s = chains[i][pos[i]].clone();
        if s.ss == 0 {
            s.comps.iter().for_each(|&c| dc_done[c] = true);
        }
        out.push(s);
        pos[i] += 1;
    }
}
/// The same coefficients coded sequentially, one scan per component.
pub fn sequential(img: &Img) -> Vec<u8> {
    let mut s = img.clone();
    s.sof = 1;
    let scans: Vec<Scan> = (0..img.comps.len()).map(|c| Scan::seq(&[c]).huff(Huff::Flat)).collect();
    stream(&s, &qts(), &scans)
}
fn slots(scans: &mut [Scan]) {
    let mut first_td = 0;
    for (i, s) in scans.iter_mut().enumerate() {
        for k in 0..s.comps.len() {
            // a DC refinement scan codes no symbols, but names a table: one that is defined
            s.td[k] = if s.ah > 0 { first_td } else { ((i + k) % 4) as u8 };
            s.ta[k] = ((i + 2 * k + 1) % 4) as u8;
        }
        if s.ss == 0 && s.ah == 0 {
            first_td = s.td[0];
        }
    }
}
/// All decode configurations must agree with the sequential coding.
fn equal(ctx: &mut Ctx, img: &Img, scans: &[Scan], vs: &[V], scale: Option<(u16, u16)>, what: &dyn Fn() -> String) -> R {
    let n = img.comps.len();
    let p = stream(img, &qts(), scans);
    ctx.state(&p);
    ctx.describe(what);
    let q = sequential(img);
    for &v in vs {
        let b = dec_raw(ctx, v, &q, n, scale);
        let a = dec_raw(ctx, v, &p, n, scale);
        let b = match &b.res {
            Ok(d) => d.clone(),
            Err(e) => return fail("sequential", format!("{}: the sequential coding fails: {e:?}", what())),
        };
        let a = match &a.res {
            Ok(d) => d.clone(),
            Err(e) => return fail("error", format!("{v:?} {}: progressive coding refused: {e:?}", what())),
        };
        ctx.outcome(&a);
        ensure!(a == b, "pixels", "{v:?} {}: progressive and sequential coding differ at {:?}", what(), first_diff(&a, &b));
    }
    Ok(())
}
pub fn scr(s: &[Scan]) -> String {
    s.iter().map(|s| format!("{:?}:{}-{},{}{}", s.comps, s.ss, s.se, s.ah, s.al)).collect::<Vec<_>>().join(" ")
}

fn img_gray(nb: usize, seed: u64) -> Img {
    dct(2, nb * 8, 8, &[(1, 1)], seed)
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    models.push(model("gray: bands x approximation x every scan order", move |ctx| {
        const CUTS: &[&[u8]] = &[&[64], &[2, 64], &[6, 64], &[33, 64], &[63, 64], &[2, 3, 64], &[6, 29, 64], &[10, 63, 64]];
        let cuts = ctx.pick(CUTS);
        let mut chains = vec![];
        let maxal = if ctx.thorough() { 3 } else { 2 };
        let dal = ctx.range(0, maxal) as u8;
        let eob = ctx.pick(&[1usize, 32767]);
        let huff = ctx.pick(&[Huff::Flat, Huff::Skew]);
        chains.push(chain(&[0], 0, 0, dal, huff, eob));
        let mut lo = 1;
        for &hi in cuts {
            let al = ctx.range(0, if cuts.len() > 2 { 1 } else { maxal }) as u8;
            chains.push(chain(&[0], lo, hi - 1, al, huff, eob));
            lo = hi;
        }
        let mut scans = merge(ctx, &chains);
        slots(&mut scans);
        let img = dct(2, 18, 9, &[(1, 1)], 3);
        let v = if ctx.thorough() { ctx.pick(&ALLV) } else { V::Rayon };
        equal(ctx, &img, &scans, &[v], None, &|| format!("gray 18x9 [{}] eob {eob} {huff:?}", scr(&scans)))
    }));
    models.push(model("colour: DC groupings x approximation x scan orders", move |ctx| {
        let f = ctx.pick(&[vec![(1, 1), (1, 1), (1, 1)], vec![(2, 2), (1, 1), (1, 1)], vec![(2, 1), (1, 2), (1, 1)], vec![(1, 1), (2, 2), (1, 1)]]);
        let (w, h) = ctx.pick(if ctx.thorough() { &[(17usize, 9usize), (33, 17), (150, 20)][..] } else { &[(17, 17)][..] });
        let parts = ordered_partitions(3);
        let p1 = ctx.pick(&parts);
        let dal = ctx.choose(2) as u8;
        let aal = ctx.choose(if ctx.thorough() { 3 } else { 2 }) as u8;
        let mut scans: Vec<Scan> = p1.iter().map(|g| Scan::prog(g, 0, 0, 0, dal)).collect();
        // one AC chain per component and the DC refinements in an own grouping; all merges
        let mut chains: Vec<Vec<Scan>> = vec![];
        if dal > 0 {
            let p2 = if ctx.thorough() { ctx.pick(&parts) } else { ctx.pick(&[parts[0].clone(), parts[parts.len() - 1].clone()]) };
            for g in p2 {
                chains.push(vec![Scan::prog(&g, 0, 0, 1, 0)]);
            }
        }
        if ctx.flag() {
            // AC of the components one after the other, DC refinement anywhere between
            let mut all = vec![];
            for c in 0..3 {
                all.extend(chain(&[c], 1, 63, aal, Huff::Flat, 32767));
            }
            chains.push(all);
        } else {
            let mut all = vec![];
            for c in [2usize, 0, 1] {
                all.extend(chain(&[c], 1, 9, 0, Huff::Flat, 32767));
                all.extend(chain(&[c], 10, 63, aal, Huff::Flat, 1));
            }
            chains.push(all);
        }
        // DC chains here are refinements; merge() treats ss == 0 as ready
        let mut pos = vec![0usize; chains.len()];
        loop {
            let ready: Vec<usize> = (0..chains.len()).filter(|&i| pos[i] < chains[i].len()).collect();
            if ready.is_empty() {
                break;
            }
            let i = ready[ctx.choose(ready.len())];
            scans.push(chains[i][pos[i]].clone());
            pos[i] += 1;
        }
        slots(&mut scans);
        let img = dct(2, w, h, &f, 5);
        let scale = if ctx.thorough() { ctx.pick(&[None, Some((w.div_ceil(4) as u16, 1))]) } else { None };
        equal(ctx, &img, &scans, if w > 128 { &[V::Rayon, V::Mpsc] } else { &[V::Rayon] }, scale, &|| format!("{f:?} {w}x{h} [{}]", scr(&scans)))
    }));
    models.push(model("colour: sampling factors x sizes x variants x scales", move |ctx| {
        let f = ctx.pick(&[
            vec![(1, 1), (1, 1), (1, 1)],
            vec![(2, 1), (1, 1), (1, 1)],
            vec![(1, 2), (1, 1), (1, 1)],
            vec![(2, 2), (1, 1), (1, 1)],
            vec![(2, 2), (2, 1), (1, 2)],
            vec![(1, 1), (1, 1), (2, 2)],
            vec![(4, 1), (2, 1), (1, 1)],
            vec![(3, 1), (1, 1), (1, 1)],
            vec![(1, 4), (1, 2), (1, 1)],
            vec![(1, 1); 4],
            vec![(2, 2), (1, 1), (1, 1), (2, 2)],
        ]);
        let n = f.len();
        let w = ctx.pick(if ctx.thorough() { &[1usize, 7, 8, 9, 16, 17, 24, 25, 33, 129, 145][..] } else { &[1, 8, 9, 17, 33, 137][..] });
        let h = ctx.pick(if ctx.thorough() { &[1usize, 8, 9, 16, 17, 25, 33][..] } else { &[1, 9, 17, 33][..] });
        let inter = ctx.flag();
        let all: Vec<usize> = (0..n).collect();
        let img = dct(2, w, h, &f, 6);
        let mut scans = vec![];
        if inter {
            scans.push(Scan::prog(&all, 0, 0, 0, 1));
        } else {
            scans.extend((0..n).map(|c| Scan::prog(&[c], 0, 0, 0, 1)));
        }
        for c in 0..n {
            scans.push(Scan::prog(&[c], 1, 63, 0, 1));
        }
        for c in 0..n {
            scans.push(Scan::prog(&[c], 1, 63, 1, 0));
        }
        scans.push(Scan::prog(&all, 0, 0, 1, 0));
        slots(&mut scans);
        let sc = ctx.pick(&[8usize, 4, 2, 1]);
        let scale = if sc == 8 { None } else { Some((cdiv(w * sc, 8) as u16, cdiv(h * sc, 8) as u16)) };
        equal(ctx, &img, &scans, &ALLV, scale, &|| format!("{f:?} {w}x{h} interleaved {inter} scale {sc}/8"))
    }));
    models.push(model("every coefficient pattern of a short band", move |ctx| {
        let vals: &[i16] = if ctx.thorough() { &[0, 1, -1, 2, -2, 3, -3, 5, -5, 9, -9] } else { &[0, 1, -1, 2, -3, 4, -7] };
        let al = ctx.range(0, 3) as u8;
        let eob = ctx.pick(&[1usize, 32767]);
        let mut img = img_gray(3, 1);
        for b in 0..3 {
            img.comps[0].blocks[b] = [0; 64];
        }
        img.comps[0].blocks[0][1] = 3;
        for k in 0..4 {
            let v = ctx.pick(vals);
            img.comps[0].blocks[1][1 + k] = v;
            img.comps[0].blocks[2][4 - k] = -v;
        }
        let mut scans = chain(&[0], 0, 0, 1, Huff::Flat, 1);
        scans.extend(chain(&[0], 1, 4, al, Huff::Flat, eob));
        scans.extend(chain(&[0], 5, 63, 0, Huff::Flat, eob));
        equal(ctx, &img, &scans, &[V::Rayon], None, &|| format!("band 1-4 = {:?}, al {al}, eob {eob}", &img.comps[0].blocks[1][1..5]))
    }));
    models.push(model("refinement runs: every pair of positions", move |ctx| {
        let i = ctx.range(1, 62);
        let j = ctx.range(i + 1, 63);
        let a = ctx.pick(&[1i16, -1, 2, -3]);
        let b = ctx.pick(&[1i16, -1, 3, -2]);
        let carpet = ctx.choose(3);
        let eob = ctx.pick(&[1usize, 32767]);
        let mut img = img_gray(2, 1);
        let mut blk = [0i16; 64];
        for k in 1..64 {
            match carpet {
                1 if k % 2 == 1 => blk[k] = if k % 4 == 1 { 2 } else { -3 },
                2 if k % 7 != 3 => blk[k] = if k % 3 == 1 { -2 } else { 3 },
                _ => {}
            }
        }
        blk[i] = a;
        blk[j] = b;
        img.comps[0].blocks[0] = blk;
        blk[i] = b;
        blk[j] = 0;
        blk[0] = 9;
        img.comps[0].blocks[1] = blk;
        let al = ctx.pick(if ctx.thorough() { &[1u8, 2, 3][..] } else { &[1][..] });
        let mut scans = chain(&[0], 0, 0, 0, Huff::Flat, 1);
        scans.extend(chain(&[0], 1, 63, al, Huff::Skew, eob));
        equal(ctx, &img, &scans, &[V::Rayon], None, &|| format!("c[{i}]={a} c[{j}]={b} carpet {carpet} eob {eob} al {al}"))
    }));
    models.push(model("end-of-band runs of every length", move |ctx| {
        let lens: Vec<usize> = if th {
            (0..=300).chain((8..=14).flat_map(|k| [(1 << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + (1 << (k - 1))])).chain([32765, 32766, 32767, 32768, 33000]).collect()
        } else {
            (0..=70).chain((7..=14).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 3])).chain([32766, 32767, 32768]).collect()
        };
        let run = ctx.pick(&lens);
        let eobs: Vec<usize> = [1usize, 2, 3, 7, 100, 4095, 32767].iter().copied().filter(|&e| run <= 2000 || e >= 4095).collect();
        let eob = ctx.pick(&eobs);
        let refine = ctx.choose(3);
        // a row of blocks: nonzero, `run` empty ones, nonzero, 2 empty ones
        let total = run + 4;
        let (bw, bh) = if total <= 500 { (total, 1) } else { (182, cdiv(total, 182)) };
        let mut img = Img::new(2, bw * 8, bh * 8, &[(1, 1)]);
        let n = img.comps[0].blocks.len();
        let blk = &mut img.comps[0].blocks;
        blk[0][5] = 1;
        blk[0][0] = 30;
        blk[run + 1][7] = -1;
        blk[run + 1][1] = 1;
        if refine == 2 {
            // already nonzero coefficients inside the run: correction bits travel with it
            for k in (1..run.min(n - 2)).step_by(3) {
                blk[k + 1][9] = if k % 2 == 0 { 2 } else { -3 };
            }
        }
        let al = (refine > 0) as u8;
        let mut scans = chain(&[0], 0, 0, 0, Huff::Flat, 1);
        scans.extend(chain(&[0], 1, 63, al, Huff::Flat, eob));
        equal(ctx, &img, &scans, &[V::Rayon], Some((1, 1)), &|| format!("run of {run} blocks, eob_max {eob}, refine {refine}"))?;
        if run < 200 {
            return equal(ctx, &img, &scans, &[V::Rayon], None, &|| format!("run of {run} blocks, eob_max {eob}, refine {refine}"));
        }
        Ok(())
    }));
    models.push(model("every approximation depth x extreme values", move |ctx| {
        let dal = ctx.range(0, 13) as u8;
        let al = ctx.range(0, 13) as u8;
        let big = ctx.pick(&[1023i16, 1024, 512, 511, 1, 2, 3]);
        let dc = ctx.pick(&[1023i16, -1024, 1, -1, 0, 512, -513]);
        let neg = ctx.flag();
        let mut img = img_gray(2, 1);
        for b in 0..2 {
            let blk = &mut img.comps[0].blocks[b];
            *blk = [0; 64];
            blk[0] = if b == 0 { dc } else { -dc / 2 };
            blk[1 + b] = if neg { -big } else { big };
            blk[40] = 1;
            blk[63] = -1;
        }
        let mut scans = chain(&[0], 0, 0, dal, Huff::Flat, 1);
        scans.extend(chain(&[0], 1, 63, al, Huff::Flat, 32767));
        equal(ctx, &img, &scans, &[V::Rayon], None, &|| format!("dc {dc} (al {dal}), ac {big} neg {neg} (al {al})"))
    }));
    models.push(model("every band split into two", move |ctx| {
        let a = ctx.range(1, 63) as u8;
        let al = ctx.choose(2) as u8;
        let first = ctx.flag();
        let img = dct(2, 26, 9, &[(1, 1)], 12);
        let mut scans = chain(&[0], 0, 0, 0, Huff::Flat, 1);
        let mut x = chain(&[0], 1, a, al, Huff::Flat, 32767);
        let mut y = if a < 63 { chain(&[0], a + 1, 63, 1 - al, Huff::Flat, 32767) } else { vec![] };
        if first {
            std::mem::swap(&mut x, &mut y);
        }
        scans.extend(x);
        scans.extend(y);
        equal(ctx, &img, &scans, &[V::Rayon], None, &|| scr(&scans))
    }));
    models.push(model("one band per coefficient", move |ctx| {
        let al = ctx.choose(2) as u8;
        let rev = ctx.flag();
        let w = ctx.pick(&[17usize, 130]);
        let img = dct(2, w, 9, &[(1, 1)], 13);
        let mut scans = chain(&[0], 0, 0, al, Huff::Flat, 1);
        let mut ks: Vec<u8> = (1..64).collect();
        if rev {
            ks.reverse();
        }
        for k in ks {
            scans.extend(chain(&[0], k, k, al, Huff::Flat, 32767));
        }
        equal(ctx, &img, &scans, &ALLV, None, &|| format!("63 bands al {al} reversed {rev} width {w}"))
    }));
    super::spec(
        "gray: 8 band splits x approximation depths 0..2 (thorough 3) x every linear extension of the scans; colour: all groupings of DC scans and placements of DC refinement; every 4-coefficient band over a 7-value alphabet (thorough 11); every pair of positions in a refined band; end-of-band runs up to 32768; al 0..13",
        &["the sequential coding of the same coefficients is the oracle (C07 and C12 decide that one)"],
        models,
    )
}
