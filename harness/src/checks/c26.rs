use super::bases::*;
use super::*;
use crate::refimg::*;

const NQ: usize = 4;
/// Four quantisation tables with different contents.
fn q(i: usize) -> [u16; 64] {
    let mut t = [0u16; 64];
    for (k, x) in t.iter_mut().enumerate() {
        *x = (2 + (mix(i as u64, k as u64, 9) % 24)) as u16 + 3 * i as u16;
    }
    t
}
/// Tables for the symbols of `ops` with the given variant of code assignment.
fn table(class: u8, slot: u8, syms: &[u8], variant: usize) -> HTable {
    let mut s = syms.to_vec();
    let n = s.len();
    s.rotate_left(variant % n);
    HTable::build(class, slot, &s, if variant == 2 { Huff::Skew } else { Huff::Flat })
}
/// Symbols per class that an image uses in its scans.
fn symbols(img: &Img, scans: &[Scan]) -> [Vec<u8>; 2] {
    let mut s = [vec![], vec![]];
    for sc in scans {
        for o in ops_for(img, sc) {
            if let Op::Sym(c, _, x) = o {
                if !s[c as usize].contains(&x) {
                    s[c as usize].push(x);
                }
            }
        }
    }
    s.iter_mut().for_each(|v| v.sort());
    s
}
/// Two-component stand-in: three components, one block row each.
fn image(sofn: u8, tq: [u8; 3]) -> Img {
    let mut img = dct(sofn, 17, 9, &[(1, 1), (1, 1), (1, 1)], 60);
    for (c, &t) in img.comps.iter_mut().zip(&tq) {
        c.tq = t;
    }
    img
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    models.push(model("quantisation tables: every entry, slot and precision", |ctx| {
        let k = ctx.choose(64);
        let slot = ctx.choose(4) as u8;
        let pq = ctx.choose(2) as u8;
        let val = if pq == 0 { ctx.pick(&[1u16, 2, 100, 128, 255]) } else { ctx.pick(&[1u16, 2, 255, 256, 257, 512, 700, 1000]) };
        let s = ctx.pick(&[8usize, 4, 2, 1]);
        let v = ctx.pick(&ALLV);
        let mut img = Img::new(0, 8, 8, &[(1, 1)]);
        img.comps[0].tq = slot;
        let c = (1000 / val as i32).clamp(1, 900) as i16;
        img.comps[0].blocks[0][k] = c;
        let mut t = [1u16; 64];
        t[k] = val;
        let mut qs = q_flat(3);
        qs[slot as usize] = t;
        let mut segs = segments(&img, &qs, &[Scan::seq(&[0])]);
        segs[1] = dqt(slot, pq, &t);
        let b = segs.concat();
        ctx.state((k, slot, pq, val, s, v));
        ctx.describe(|| format!("entry {k} slot {slot} pq {pq} value {val} scale {s}/8 {v:?}"));
        let scale = (s != 8).then(|| super::c16::req_for(8, 8, s).unwrap());
        let d = must(&dec_raw(ctx, v, &b, 1, scale), "table")?;
        let p = planes(&img, &qs, s);
        let mut dev = 0.0f64;
        for (g, w) in d.iter().zip(&p[0].d) {
            dev = dev.max((*g as f64 - w).abs());
        }
        ensure!(d.len() == s * s && dev <= 3.0, "entry", "{v:?} entry {k} slot {slot} pq {pq} value {val} coefficient {c} scale {s}/8: off by {dev:.2}");
        Ok(())
    }));
    models.push(model("quantisation tables: all definition histories over three scans", |ctx| {
        // alphabet: nothing, or slot x contents in 8 or 16 bit, or one segment with two tables
        let tq = ctx.pick(&[[0u8, 0, 0], [0, 1, 0], [1, 1, 1], [3, 0, 2]]);
        let deep = ctx.thorough();
        let mut img = image(1, tq);
        let mut cur: [Option<usize>; 4] = [None; 4];
        let mut segs = vec![SOI.to_vec()];
        let mut used = [None; 3];
        let mut desc = String::new();
        let sof_at = ctx.choose(2); // before or after the first definitions
        let mut ri = 0;
        if sof_at == 0 {
            segs.push(sof(&img));
        }
        for scan in 0..3usize {
            let n = if scan == 0 { 2 } else { 1 };
            for step in 0..n {
                let slots = [tq[0], tq[1], tq[2], (tq[0] + 1) % 4];
                let k = ctx.choose(if deep { 14 } else { 9 });
                match k {
                    0 => {}
                    1..=4 | 9 | 10 => {
                        let slot = slots[(k - 1) % 4];
                        let cont = (scan * 2 + step + k) % NQ;
                        segs.push(dqt(slot, (k == 2 || k >= 9) as u8, &q(cont)));
                        cur[slot as usize] = Some(cont);
                        desc += &format!(" [{slot}]={cont}");
                    }
                    5 | 6 | 11 => {
                        // two tables in one segment, different slots
                        let (a, b) = (slots[0], if slots[1] == slots[0] { slots[3] } else { slots[1] });
                        let (a, b) = if k == 6 { (b, a) } else { (a, b) };
                        let (x, y) = ((scan + k) % NQ, (scan + k + 1 + step) % NQ);
                        let mut p = dqt_body(a, (k == 11) as u8, &q(x));
                        p.extend(dqt_body(b, (k == 6) as u8, &q(y)));
                        segs.push(seg(0xDB, &p));
                        cur[a as usize] = Some(x);
                        cur[b as usize] = Some(y);
                        desc += &format!(" [{a}]={x},[{b}]={y}");
                    }
                    7 | 12 => {
                        // the same slot twice in one segment: the last one counts
                        let a = slots[scan];
                        let (x, y) = ((scan + 2) % NQ, (scan + 3 + step) % NQ);
                        let mut p = dqt_body(a, 0, &q(x));
                        p.extend(dqt_body(a, (k == 12) as u8, &q(y)));
                        segs.push(seg(0xDB, &p));
                        cur[a as usize] = Some(y);
                        desc += &format!(" [{a}]={x},[{a}]={y}");
                    }
                    _ => {
                        // all four slots
                        let mut p = vec![];
                        for a in 0..4u8 {
                            let x = (a as usize + scan + k) % NQ;
                            p.extend(dqt_body(a, a & 1, &q(x)));
                            cur[a as usize] = Some(x);
                        }
                        segs.push(seg(0xDB, &p));
                        desc += " all";
                    }
                }
            }
            if scan == 0 && sof_at == 1 {
                segs.push(sof(&img));
            }
            desc += &format!(" scan{scan}");
            segs.extend(scan_segments(&img, &Scan::seq(&[scan]), &mut ri));
            match cur[tq[scan] as usize] {
                Some(x) => used[scan] = Some(x),
                None => {
                    used[scan] = None;
                    break;
                }
            }
        }
        segs.push(EOI.to_vec());
        let b = segs.concat();
        ctx.state(&b);
        let what = format!("tq {tq:?}:{desc}");
        ctx.describe(|| what.clone());
        let o = dec_raw(ctx, V::Pi, &b, 3, None);
        if used.iter().any(|u| u.is_none()) {
            ensure!(matches!(o.res, Err(E::Format(_))), "undefined", "{what}: {}", o.brief());
            return Ok(());
        }
        let d = must(&o, &what)?;
        // canonical: one slot per contents, all defined up front
        let qs: Qts = [q(0), q(1), q(2), q(3)];
        for (c, u) in img.comps.iter_mut().zip(&used) {
            c.tq = u.unwrap() as u8;
        }
        let w = must(&dec_raw(ctx, V::Pi, &stream(&img, &qs, &[Scan::seq(&[0]), Scan::seq(&[1]), Scan::seq(&[2])]), 3, None), "canonical")?;
        ensure!(d == w, "pixels", "{what}: {:?}", first_diff(&d, &w));
        Ok(())
    }));
    models.push(model("Huffman tables: all definition histories over three scans", |ctx| {
        let sofn = ctx.pick(&[1u8, 2]);
        let slots = ctx.pick(&[[0u8, 0, 0], [0, 1, 0], [2, 3, 2], [1, 1, 0]]);
        let img = image(sofn, [0; 3]);
        let mk = |i: usize| {
            let mut s = if sofn == 2 { Scan::prog(&[i], 0, 0, 0, 0) } else { Scan::seq(&[i]) };
            s.td = vec![slots[i]];
            s.ta = vec![slots[(i + 1) % 3]];
            s
        };
        let mut scans: Vec<Scan> = (0..3).map(mk).collect();
        if sofn == 2 {
            // a DC scan, then an AC scan of two components
            for i in 0..2 {
                let mut s = Scan::prog(&[i], 1, 63, 0, 0);
                s.ta = vec![slots[(i + 1) % 3]];
                scans.push(s);
            }
        }
        let n = if ctx.thorough() { 5 } else { 3 };
        let scans = if ctx.thorough() { scans } else { [&scans[..1], &scans[scans.len() - 2..]].concat() };
        let scans = if scans.len() > n { scans[..n].to_vec() } else { scans };
        let sy = symbols(&img, &scans);
        let mut cur: Vec<Option<HTable>> = vec![None; 8];
        let mut segs = vec![SOI.to_vec(), dqt(0, 0, &[6; 64])];
        let mut desc = format!("SOF{sofn} slots {slots:?}:");
        let early = ctx.flag(); // first definitions before the frame header
        if !early {
            segs.push(sof(&img));
        }
        let mut bad = false;
        for (i, s) in scans.iter().enumerate() {
            let k = ctx.choose(if i == 0 { 5 } else { 8 });
            let (a, b) = (s.td[0], s.ta[0]);
            let t = |c: u8, sl: u8, var: usize| table(c, sl, &sy[c as usize], var);
            let defs: Vec<Vec<HTable>> = match k {
                0 => vec![],
                1 => vec![vec![t(0, a, i), t(1, b, i + 1)]],
                2 => vec![(0..4).map(|x| t(0, x, i + x as usize)).collect(), (0..4).map(|x| t(1, x, i + x as usize + 1)).collect()],
                3 => vec![vec![t(0, a, 0), t(0, a, 2), t(1, b, 1), t(1, b, 0)]],
                4 => vec![vec![t(1, a, 1), t(1, b, 2)], vec![t(0, b, 2), t(0, a, 1)]],
                5 => vec![vec![t(0, a, i + 2)]],
                6 => vec![vec![t(1, b, i + 1)]],
                // definitions for other slots only
                _ => vec![vec![t(0, a ^ 1, i), t(1, b ^ 1, i + 1)]],
            };
            desc += &format!(" {k}");
            for d in &defs {
                segs.push(seg(0xC4, &d.iter().flat_map(dht_body).collect::<Vec<u8>>()));
                for x in d {
                    cur[(x.class * 4 + x.slot) as usize] = Some(x.clone());
                }
            }
            if early && i == 0 {
                segs.push(sof(&img));
            }
            let (dc, ac) = (cur[a as usize].clone(), cur[4 + b as usize].clone());
            let (needdc, needac) = (s.ss == 0, s.se > 0);
            if needdc && dc.is_none() || needac && ac.is_none() {
                bad = true;
                segs.push(sos(&img, s));
                segs.push(vec![0x12, 0x34, 0x56, 0x78, 0x9A, 0, 0, 0]);
                break;
            }
            let tabs: Vec<HTable> = dc.into_iter().chain(ac).collect();
            let mut x = sos(&img, s);
            x.extend(emit(&ops_for(&img, s), &tabs));
            segs.push(x);
        }
        segs.push(EOI.to_vec());
        let b = segs.concat();
        ctx.state(&b);
        ctx.describe(|| desc.clone());
        let o = dec_raw(ctx, V::Pi, &b, 3, None);
        let c = dec_raw(ctx, V::Pi, &stream(&img, &q_flat(6), &scans), 3, None);
        if bad {
            ensure!(matches!(o.res, Err(E::Format(_))), "undefined", "{desc}: {}", o.brief());
        } else {
            // the same scans with their own tables each (an incomplete sequential image is an error in both)
            ensure!(o.res.is_ok() == c.res.is_ok(), "error", "{desc}: {} / canonical {}", o.brief(), c.brief());
            if let (Ok(x), Ok(y)) = (&o.res, &c.res) {
                ensure!(x == y, "pixels", "{desc}: {:?}", first_diff(x, y));
            }
        }
        ctx.outcome((&o.res, bad));
        Ok(())
    }));
    models.push(model("restart intervals: all definition histories over three scans", |ctx| {
        let kind = ctx.choose(3); // sequential, progressive, lossless
        let mut img = match kind {
            0 => dct(1, 41, 17, &[(1, 1), (1, 1), (1, 1)], 61),
            1 => dct(2, 41, 17, &[(1, 1), (1, 1), (1, 1)], 61),
            _ => lossless(8, 3, 7, 3, 61),
        };
        let unit = if kind == 2 { 3 } else { 1 };
        img.comps.iter_mut().for_each(|c| c.tq = 0);
        let scans: Vec<Scan> = match kind {
            0 => (0..3).map(|c| Scan::seq(&[c])).collect(),
            1 => vec![Scan::prog(&[0, 1, 2], 0, 0, 0, 1), Scan::prog(&[1], 1, 63, 0, 0), Scan::prog(&[0, 1, 2], 0, 0, 1, 0)],
            _ => (0..3).map(|c| Scan::lossless(&[c], [1, 4, 7][c], 0)).collect(),
        };
        let mut cur = 0usize;
        let mut segs = vec![SOI.to_vec(), dqt(0, 0, &[6; 64])];
        let mut desc = format!("kind {kind}:");
        let early = ctx.choose(4);
        if early > 0 {
            cur = [0, 1, 3, 0][early] * unit;
            segs.push(dri(cur));
            desc += &format!(" {cur} before the frame,");
        }
        segs.push(sof(&img));
        let mut coded = vec![];
        for s in &scans {
            for _ in 0..2 {
                let k = ctx.choose(if ctx.thorough() { 6 } else { 5 });
                if k > 0 {
                    cur = [0, 0, 1, 2, 5, 4][k] * unit;
                    segs.push(dri(cur));
                    desc += &format!(" {cur}");
                }
            }
            desc += " scan";
            let mut at = cur;
            let s = s.clone().ri(cur);
            segs.extend(scan_segments(&img, &s, &mut at));
            coded.push(s.ri(0));
        }
        segs.push(EOI.to_vec());
        let b = segs.concat();
        ctx.state(&b);
        ctx.describe(|| desc.clone());
        let raw = |ctx: &mut Ctx, b: &[u8]| if kind == 2 { dec(ctx, V::Pi, b, &Opts::default()) } else { dec_raw(ctx, V::Pi, b, 3, None) };
        let d = must(&raw(ctx, &b), &desc)?;
        let w = must(&raw(ctx, &stream(&img, &q_flat(6), &coded)), "without restarts")?;
        ensure!(d == w, "pixels", "{desc}: {:?}", first_diff(&d, &w));
        Ok(())
    }));
    models.push(model("mixed definitions, progressive image over all builds", |ctx| {
        // quantisation before each scan for one component at a time; a component is rendered with the
        // table in effect for the scan that completes it, so definitions afterwards are for others
        let v = ctx.pick(&ALLV);
        let wide = ctx.flag();
        let mut img = dct(2, if wide { 130 } else { 18 }, 10, &[(2, 1), (1, 1), (1, 1)], 62);
        img.comps.iter_mut().for_each(|c| c.tq = 2);
        let order = ctx.pick(&[[0usize, 1, 2], [2, 1, 0], [1, 0, 2]]);
        let pos: Vec<usize> = (0..3).map(|_| ctx.choose(4)).collect();
        let mut segs = vec![SOI.to_vec(), dqt(2, 0, &q(0)), sof(&img)];
        let mut ri = 0;
        segs.extend(scan_segments(&img, &Scan::prog(&[0, 1, 2], 0, 0, 0, 0), &mut ri));
        let mut cur = 0;
        let mut used = [0; 3];
        for (i, &c) in order.iter().enumerate() {
            if pos[i] > 0 {
                cur = pos[i];
                segs.push(dqt(2, (pos[i] == 2) as u8, &q(cur)));
            }
            segs.extend(scan_segments(&img, &Scan::prog(&[c], 1, 63, 0, 0), &mut ri));
            used[c] = cur;
        }
        segs.push(EOI.to_vec());
        let b = segs.concat();
        ctx.state((&b, v));
        let what = format!("{v:?} wide {wide} order {order:?} tables {pos:?}");
        ctx.describe(|| what.clone());
        let d = must(&dec_raw(ctx, v, &b, 3, None), &what)?;
        for c in 0..3 {
            img.comps[c].tq = used[c] as u8;
        }
        let qs: Qts = [q(0), q(1), q(2), q(3)];
        let mut scans = vec![Scan::prog(&[0, 1, 2], 0, 0, 0, 0)];
        scans.extend(order.iter().map(|&c| Scan::prog(&[c], 1, 63, 0, 0)));
        let w = must(&dec_raw(ctx, v, &stream(&img, &qs, &scans), 3, None), "canonical")?;
        ensure!(d == w, "pixels", "{what}: {:?}", first_diff(&d, &w));
        Ok(())
    }));
    let _ = th;
    super::spec(
        "each of 64 entries x 4 slots x 8/16 bit x values x 4 scales x 3 builds; all DQT histories (9 kinds, thorough 14, up to 4 definitions) around three scans; all DHT histories (5 x 8 x 8 kinds; thorough five scans for progressive) x slot assignments x SOF1/SOF2; all DRI histories (two per scan, 5 or 6 values) x 3 processes; progressive completion order x redefinitions",
        &["a progressive component is rendered with the table in effect for the scan that completes it"],
        models,
    )
}
