use super::bases::*;
use super::*;

fn avi() -> Vec<u8> {
    app(0, b"AVI1\0\0\0\0")
}
/// Segments without the tables of the classes/slots for which `keep` is false.
fn strip(segs: &[Vec<u8>], keep: impl Fn(u8, u8) -> bool) -> Vec<Vec<u8>> {
    segs.iter().filter(|s| s[1] != 0xC4 || keep(s[4] >> 4, s[4] & 15)).cloned().collect()
}
/// A table for the same symbols with other codes: standard code lengths handed out in another order.
fn other(class: u8, slot: u8) -> HTable {
    let t = std_table(class, slot);
    let mut v = t.vals.clone();
    v.reverse();
    let k = v.len() / 3;
    v.rotate_left(k);
    HTable::from_bits(class, slot, &t.bits, &v)
}
/// A gray or three-component image in which every symbol of the four standard tables occurs.
/// Component 0 uses slot 0, components 1 and 2 slot 1.
fn all_symbols(sof: u8, sizes_to: u8) -> Img {
    // 4:2:2; blocks: component 0 has twice as many
    let mut img = Img::new(sof, 16 * 40, 8 * 10, &[(2, 1), (1, 1), (1, 1)]);
    for c in &mut img.comps {
        c.tq = 0;
    }
    let mut prev = [0i16; 3];
    for ci in 0..3 {
        let k = &mut img.comps[ci];
        let n = k.blocks.len();
        for (i, b) in k.blocks.iter_mut().enumerate() {
            // dc categories
            let s = (i % 12) as u32;
            let d = if s == 0 { 0 } else { (1i32 << (s - 1)) + (i as i32 % (1i32 << (s - 1))) };
            let d = if prev[ci] > 0 { -d } else { d };
            b[0] = prev[ci] + d as i16;
            prev[ci] = b[0];
            // one run/size symbol per block, all of them in turn
            let sym = i % 161;
            if sym < 160 {
                let (run, size) = (sym % 16, (sym / 16 + 1) as u32);
                if size <= sizes_to as u32 {
                    let m = (1i32 << (size - 1)) + (i as i32 % (1i32 << (size - 1)));
                    b[1 + run] = if i % 3 == 0 { -m as i16 } else { m as i16 };
                }
            } else {
                b[40] = 1; // two ZRL
            }
            if i % 5 == 0 {
                b[63] = 1; // no EOB
            }
        }
        assert!(n >= 161);
    }
    img
}
fn scan(td: [u8; 3], ta: [u8; 3]) -> Scan {
    let mut s = Scan::seq(&[0, 1, 2]).huff(Huff::Std);
    s.td = td.to_vec();
    s.ta = ta.to_vec();
    s
}
/// One scan coded with the given table set.
fn coded(img: &Img, s: &Scan, t: &[HTable]) -> Vec<u8> {
    let mut x = sos(img, s);
    x.extend(emit(&ops_for(img, s), t));
    x
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    models.push(model("each symbol of the standard tables alone", |ctx| {
        let slot = ctx.choose(2) as u8;
        let class = ctx.choose(2) as u8;
        let t = std_table(class, slot);
        let sym = ctx.pick(&t.vals);
        let bits = ctx.choose(4);
        let align = ctx.choose(4);
        let v = ctx.pick(&ALLV);
        let mut img = Img::new(0, 48, 8, &[(1, 1)]);
        for i in 0..6 {
            let b = &mut img.comps[0].blocks[i];
            let (run, size) = if class == 0 { (0, sym) } else { (sym >> 4, sym & 15) };
            let m = if size == 0 {
                0
            } else {
                let lo = 1i32 << (size - 1);
                match bits {
                    0 => lo,
                    1 => 2 * lo - 1,
                    2 => -lo,
                    _ => -(2 * lo - 1),
                }
            };
            if class == 0 {
                b[0] = if i % 2 == 0 { m as i16 } else { 0 };
                if i < align {
                    b[1] = 1 << i;
                }
            } else {
                if i < align {
                    b[0] = 1 << i;
                }
                if sym == 0xF0 {
                    b[17 + i] = 1;
                } else if size > 0 {
                    b[1 + run as usize] = m as i16;
                }
            }
        }
        let mut s = Scan::seq(&[0]);
        s.td = vec![slot];
        s.ta = vec![slot];
        let q = q_flat(4);
        let want = must(&dec(ctx, v, &stream(&img, &q, &[s.clone()]), &Opts::default()), "own tables")?;
        let segs = strip(&segments(&img, &q, &[s.huff(Huff::Std)]), |_, _| false);
        let segs = with_head(segs, vec![avi()]);
        ctx.state((slot, class, sym, bits, align, v));
        ctx.describe(|| format!("{v:?} class {class} slot {slot} symbol {sym:02x}"));
        let d = must(&dec(ctx, v, &segs.concat(), &Opts::default()), &format!("{v:?} class {class} slot {slot} symbol {sym:02x}"))?;
        ensure!(d == want, "pixels", "{v:?} class {class} slot {slot} symbol {sym:02x} bits {bits}: {:?}", first_diff(&d, &want));
        ctx.outcome(&d);
        Ok(())
    }));
    models.push(model("subsets of defined tables x mark x selectors", |ctx| {
        // bit: 0 dc0, 1 dc1, 2 ac0, 3 ac1
        let mask = ctx.choose(16);
        let odd = ctx.flag(); // the defined tables differ from the standard ones
        let mark = ctx.choose(6);
        let sel = ctx.choose(4);
        let sofn = ctx.pick(&[0u8, 1]);
        let v = ctx.pick(&ALLV);
        let img = all_symbols(sofn, 9);
        let (td, ta) = [([0, 1, 1], [0, 1, 1]), ([0, 0, 0], [0, 0, 0]), ([1, 0, 1], [0, 1, 0]), ([1, 1, 1], [1, 1, 1])][sel];
        let s = scan(td, ta);
        let q = q_flat(1);
        let mut tabs = vec![];
        let mut defs = vec![];
        for (i, (c, k)) in [(0u8, 0u8), (0, 1), (1, 0), (1, 1)].into_iter().enumerate() {
            if mask >> i & 1 == 1 {
                let t = if odd { other(c, k) } else { std_table(c, k) };
                defs.push(dht(&t));
                tabs.push(t);
            } else {
                tabs.push(std_table(c, k));
            }
        }
        let mut segs = vec![SOI.to_vec()];
        let m = match mark {
            0 | 3 | 4 => avi(),
            1 => app(0, b"AVI1\0"),
            2 => app(0, b"AVI1\0\0\0\x10\0\0\x10\0\0\0\0\0"),
            _ => app(0, b"AVI2\0\0\0\0"), // not the mark
        };
        if mark != 3 && mark != 4 {
            segs.push(m.clone());
        }
        segs.push(dqt(0, 0, &q[0]));
        if mark == 3 {
            segs.push(m.clone());
        }
        segs.extend(defs);
        segs.push(sof(&img));
        if mark == 4 {
            segs.push(m);
        }
        segs.push(coded(&img, &s, &tabs));
        segs.push(EOI.to_vec());
        let bytes = segs.concat();
        ctx.state(&bytes);
        let what = format!("{v:?} SOF{sofn} defined {mask:04b} (other codes: {odd}) mark {mark} dc {td:?} ac {ta:?}");
        ctx.describe(|| what.clone());
        let o = dec(ctx, v, &bytes, &Opts::default());
        let missing = td.iter().any(|&k| mask >> k & 1 == 0) || ta.iter().any(|&k| mask >> (2 + k) & 1 == 0);
        if missing && mark == 5 {
            ensure!(matches!(o.res, Err(E::Format(_))), "unmarked", "{what}: {}", o.brief());
        } else {
            let d = must(&o, &what)?;
            let w = must(&dec(ctx, v, &stream(&img, &q, &[Scan { huff: Huff::Flat, ..s }]), &Opts::default()), "own tables")?;
            ensure!(d == w, "pixels", "{what}: {:?}", first_diff(&d, &w));
        }
        Ok(())
    }));
    models.push(model("definitions between scans, separate scans, slots 2 and 3", |ctx| {
        let img = all_symbols(1, 8);
        let v = ctx.pick(&ALLV);
        let q = q_flat(1);
        // before each of the three scans: nothing, or one definition
        let mut tabs: Vec<Option<HTable>> = vec![None; 8];
        let mut segs = vec![SOI.to_vec(), dqt(0, 0, &q[0]), sof(&img)];
        let mark = ctx.choose(4); // 0: at the start, k: before scan k (3: never before the last)
        if mark == 0 {
            segs.insert(1, avi());
        }
        let mut bad = false;
        let mut desc = vec![];
        for c in 0..3usize {
            if mark == c && c > 0 {
                segs.push(avi());
            }
            let d = ctx.choose(6);
            let def = match d {
                0 => None,
                1 => Some(other(0, 0)),
                2 => Some(other(1, 0)),
                3 => Some(std_table(1, 1)),
                4 => Some(other(1, 1)),
                _ => Some(other(0, 1)),
            };
            if let Some(t) = def {
                segs.push(dht(&t));
                let i = (t.class * 4 + t.slot) as usize;
                tabs[i] = Some(t);
            }
            let slot = ctx.choose(3) as u8; // 2 = a slot without defaults
            let mut s = Scan::seq(&[c]).huff(Huff::Std);
            s.td = vec![slot];
            s.ta = vec![slot];
            desc.push((d, slot));
            let marked = mark <= c;
            let use_t: Vec<Option<HTable>> = (0..2u8)
                .map(|cl| {
                    let i = (cl * 4 + slot) as usize;
                    if tabs[i].is_none() && marked && slot < 2 {
                        // the default fills the slot and stays
                        tabs[i] = Some(std_table(cl, slot));
                    }
                    tabs[i].clone()
                })
                .collect();
            bad |= use_t.iter().any(|t| t.is_none());
            let t: Vec<HTable> = (0..2u8).map(|cl| use_t[cl as usize].clone().unwrap_or_else(|| std_table(cl, slot))).collect();
            segs.push(coded(&img, &s, &t));
            if bad {
                break;
            }
        }
        segs.push(EOI.to_vec());
        let bytes = segs.concat();
        ctx.state(&bytes);
        let what = format!("{v:?} mark {mark} (definition, slot) per scan {desc:?}");
        ctx.describe(|| what.clone());
        let o = dec(ctx, v, &bytes, &Opts::default());
        if bad {
            ensure!(matches!(o.res, Err(E::Format(_))), "missing", "{what}: {}", o.brief());
        } else {
            let d = must(&o, &what)?;
            let w = must(&dec(ctx, v, &stream(&img, &q, &[Scan::seq(&[0]), Scan::seq(&[1]), Scan::seq(&[2])]), &Opts::default()), "own tables")?;
            ensure!(d == w, "pixels", "{what}: {:?}", first_diff(&d, &w));
        }
        Ok(())
    }));
    models.push(model("mark payloads", |ctx| {
        // which APP0 payloads count as the mark
        let k = ctx.choose(12);
        let p: &[u8] = [&b"AVI1\0"[..], b"AVI1\0x", b"AVI1", b"AVI", b"", b"avi1\0", b"JFIF\0\x01\x02", b"AVI2\0\0", b"AVI1AVI1\0", b"\0AVI1\0", b"MJPG\0", b"AVI1\0\0\0\0\0\0\0\0\0\0\0"][k];
        let n = ctx.pick(&[0u8, 1, 2, 14]);
        let v = ctx.pick(&ALLV);
        let img = all_symbols(0, 8);
        let s = scan([0, 1, 1], [0, 1, 1]);
        let segs = with_head(strip(&segments(&img, &q_flat(1), &[s.clone()]), |_, _| false), vec![app(n, p)]);
        let bytes = segs.concat();
        ctx.state(&bytes);
        let what = format!("{v:?} APP{n} {:?}", String::from_utf8_lossy(p));
        ctx.describe(|| what.clone());
        let o = dec(ctx, v, &bytes, &Opts::default());
        if n == 0 && matches!(k, 0 | 1 | 11) {
            let d = must(&o, &what)?;
            let w = must(&dec(ctx, v, &stream(&img, &q_flat(1), &[s]), &Opts::default()), "tables present")?;
            ensure!(d == w, "pixels", "{what}: {:?}", first_diff(&d, &w));
        } else {
            ensure!(matches!(o.res, Err(E::Format(_))), "unmarked", "{what}: {}", o.brief());
        }
        Ok(())
    }));
    let _ = th;
    super::spec(
        "each of the 348 standard symbols x 4 values x 4 alignments x 3 builds; 16 subsets of defined tables x standard/other codes x 6 mark variants x 4 selector assignments x SOF0/SOF1; all histories of definitions, marks and slots over three scans; 12 APP0 payloads",
        &["the mark is an APP0 segment starting with AVI1 and a zero byte"],
        models,
    )
}
