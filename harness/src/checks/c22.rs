use super::bases::*;
use super::*;
use std::sync::Arc;

/// All nondecreasing length lists of n codes; (list, sum of 2^(16-l)).
fn lens(n: usize) -> Vec<(Vec<u8>, u32)> {
    fn rec(n: usize, lo: u8, cur: &mut Vec<u8>, k: u32, out: &mut Vec<(Vec<u8>, u32)>) {
        if n == 0 {
            out.push((cur.clone(), k));
            return;
        }
        for l in lo..=16 {
            cur.push(l);
            rec(n - 1, l, cur, k + (1 << (16 - l)), out);
            cur.pop();
        }
    }
    let mut v = vec![];
    rec(n, 1, &mut vec![], 0, &mut v);
    v
}
/// A sequence over 0..n in which every ordered triple (pair for larger n) occurs.
fn all_words(n: usize, k: u32) -> Vec<usize> {
    let mut v = vec![];
    for i in 0..n.pow(k) {
        let mut x = i;
        for _ in 0..k {
            v.push(x % n);
            x /= n;
        }
    }
    v
}
/// A lossless 16-bit image of one line whose differences have the given categories; `bits` selects
/// the additional bits. Every difference is observable exactly.
fn diff_image(cats: &[u8], bits: usize) -> Img {
    let mut img = Img::new(3, cats.len(), 1, &[(1, 1)]);
    img.prec = 16;
    let mut prev = 1i64 << 15;
    for (i, &s) in cats.iter().enumerate() {
        let d: i64 = if s == 0 {
            0
        } else if s == 16 {
            32768
        } else {
            let lo = 1i64 << (s - 1);
            match (bits + i) % 4 {
                0 => lo,
                1 => 2 * lo - 1,
                2 => -lo,
                _ => -(2 * lo - 1) + (mix(i as u64, s as u64, 3) % lo as u64) as i64,
            }
        };
        prev = (prev + d) & 0xFFFF;
        img.comps[0].samples[i] = prev as u16;
    }
    img
}
fn lossless_with(img: &Img, t: &HTable) -> Vec<u8> {
    let s = Scan::lossless(&[0], 1, 0);
    let mut b = SOI.to_vec();
    b.extend(dht(t));
    b.extend(sof(img));
    b.extend(sos(img, &s));
    b.extend(emit(&ops_for(img, &s), std::slice::from_ref(t)));
    b.extend(EOI);
    b
}
fn check_dc(ctx: &mut Ctx, v: V, lens: &[(u8, u8)], cats: &[u8], bits: usize, what: &dyn Fn() -> String) -> R {
    let t = HTable::from_lens(0, 0, lens);
    let img = diff_image(cats, bits);
    let b = lossless_with(&img, &t);
    ctx.state(&b);
    ctx.describe(what);
    let d = must(&dec(ctx, v, &b, &Opts::default()), &format!("{v:?} {}", what()))?;
    let want = super::c11::expected(&img, &[0]);
    ensure!(d == want, "values", "{v:?} {}: byte {:?}", what(), first_diff(&d, &want));
    ctx.outcome(d.len());
    Ok(())
}
/// Sequential gray image, AC table and DC table given.
fn seq_with(img: &Img, tabs: &[HTable]) -> Vec<u8> {
    let s = Scan::seq(&[0]);
    let mut b = SOI.to_vec();
    b.extend(dqt(0, 1, &[quant(img); 64]));
    for t in tabs {
        b.extend(dht(t));
    }
    b.extend(sof(img));
    b.extend(sos(img, &s));
    b.extend(emit(&ops_for(img, &s), tabs));
    b.extend(EOI);
    b
}
/// The quantiser that makes the coefficients as visible as possible.
fn quant(img: &Img) -> u16 {
    let m = img.comps[0].blocks.iter().flat_map(|b| b[1..].iter().copied()).map(|x| x.unsigned_abs()).max().unwrap().max(1);
    (1023 / m).max(1)
}
/// The same image through plain tables (every code of the same length).
fn plain(img: &Img) -> Vec<u8> {
    stream(img, &[[quant(img); 64]; 4], &[Scan::seq(&[0])])
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    let valid: Arc<Vec<Vec<u8>>> = Arc::new((1..=if th { 5 } else { 4 }).flat_map(lens).filter(|x| x.1 <= 65536).map(|x| x.0).collect());
    let over: Arc<Vec<Vec<u8>>> = Arc::new((2..=if th { 6 } else { 5 }).flat_map(lens).filter(|x| x.1 > 65536).map(|x| x.0).collect());
    models.push(model("difference codes: every table of up to 4 codes, every word of 3 symbols", {
        let valid = valid.clone();
        move |ctx| {
            let l = &valid[ctx.choose(valid.len())];
            let n = l.len();
            // which categories the codes stand for
            let off = ctx.pick(&[0usize, 1, 5, 8, 11, 14]);
            let bits = if ctx.thorough() { ctx.choose(4) } else { 0 };
            let rev = ctx.flag();
            let sym = |i: usize| ((if rev { n - 1 - i } else { i }) * if off > 8 { 1 } else { 3 } + off).min(99) as u8 % 17;
            let lens: Vec<(u8, u8)> = (0..n).map(|i| (sym(i), l[i])).collect();
            let cats: Vec<u8> = all_words(n, 3).into_iter().map(sym).collect();
            check_dc(ctx, V::Mpsc, &lens, &cats, bits, &|| format!("categories/lengths {lens:?}"))
        }
    }));
    models.push(model("difference codes: every category at every length, alignment and bit pattern", |ctx| {
        let cat = ctx.range(0, 16) as u8;
        let len = ctx.range(1, 16) as u8;
        let align = ctx.choose(8);
        let bits = ctx.choose(4);
        let v = ctx.pick(&ALLV);
        // a one-bit code (category 0) sets the alignment; length 1 is taken by the category itself
        let other = if cat == 0 { 1 } else { 0 };
        let lens = if len == 1 { vec![(cat, 1), (other, 2)] } else { vec![(other, 1), (cat, len)] };
        let mut c = vec![other; align];
        for i in 0..12 {
            c.push(cat);
            if i % 3 == 1 {
                c.push(other);
            }
        }
        check_dc(ctx, v, &lens, &c, bits, &|| format!("category {cat} length {len} after {align} symbols"))
    }));
    models.push(model("AC codes: every run/size at every length, all values", |ctx| {
        let run = ctx.choose(16);
        let size = ctx.range(1, 10);
        let len = ctx.range(1, 16) as u8;
        let v = if ctx.thorough() { ctx.pick(&ALLV) } else { V::Pi };
        let sym = (run << 4 | size) as u8;
        let lens = if len == 1 { vec![(sym, 1), (0u8, 2)] } else { vec![(0u8, 1), (sym, len)] };
        let n = 1usize << size;
        // every value of the category; the DC category varies the alignment
        let w = n.min(32);
        let mut img = Img::new(0, 8 * w, 8 * cdiv(n, w), &[(1, 1)]);
        for i in 0..n {
            let b = &mut img.comps[0].blocks[i];
            let lo = 1i32 << (size - 1);
            let x = if (i as i32) < lo { lo + i as i32 } else { -(i as i32) };
            b[1 + run] = x as i16;
            b[0] = [0i16, 0, 1, 0, -2, 1, 1, 0, 3][i % 9];
        }
        let tabs = [HTable::build(0, 0, &[0, 1, 2, 3], Huff::Skew), HTable::from_lens(1, 0, &lens)];
        let b = seq_with(&img, &tabs);
        ctx.state(&b);
        ctx.describe(|| format!("symbol {sym:02x} length {len}"));
        let d = must(&dec(ctx, v, &b, &Opts::default()), &format!("{v:?} symbol {sym:02x} length {len}"))?;
        let want = must(&dec(ctx, v, &plain(&img), &Opts::default()), "plain tables")?;
        ensure!(d == want, "values", "{v:?} symbol {sym:02x} length {len}: {:?}", first_diff(&d, &want));
        Ok(())
    }));
    models.push(model("AC codes: every table of up to 4 codes, every pair of symbols", {
        let valid = valid.clone();
        move |ctx| {
            let l = &valid[ctx.choose(valid.len())];
            let set = ctx.choose(4);
            let order = ctx.choose(2);
            let mut syms: Vec<u8> = [[0u8, 0x01, 0x23, 0xF0, 0x12], [0x05, 0, 0xF1, 0x11, 0xF0], [0x31, 0x02, 0x0A, 0, 0x21], [0x74, 0x08, 0, 0x13, 0x01]][set][..l.len()].to_vec();
            if order == 1 {
                syms.reverse();
            }
            let lens: Vec<(u8, u8)> = syms.iter().copied().zip(l.iter().copied()).collect();
            let has = |s: u8| syms.contains(&s);
            // blocks: all words of two coefficient symbols, as far as the table can code them
            let coef: Vec<u8> = syms.iter().copied().filter(|&s| s & 15 != 0).collect();
            let mut blocks: Vec<Block> = vec![];
            let mut add = |word: &[u8], zrl: usize| {
                let mut b = [0i16; 64];
                let mut k = 1 + 16 * zrl;
                for (j, &s) in word.iter().enumerate() {
                    k += (s >> 4) as usize;
                    if k > 63 {
                        return;
                    }
                    let lo = 1i32 << ((s & 15) - 1);
                    let x = lo + (mix(blocks.len() as u64, j as u64, 1) % lo as u64) as i32;
                    b[k] = if (blocks.len() + j) % 2 == 0 { x } else { -x } as i16;
                    k += 1;
                }
                if k < 64 && !has(0) {
                    // no end-of-block code: fill the block to its end with a run-0 coefficient
                    let Some(&z) = coef.iter().find(|&&s| s >> 4 == 0) else { return };
                    while k < 64 {
                        b[k] = 1 << ((z & 15) - 1);
                        k += 1;
                    }
                }
                b[0] = (blocks.len() % 5) as i16;
                blocks.push(b);
            };
            add(&[], 0);
            for &a in &coef {
                add(&[a], 0);
                if has(0xF0) {
                    add(&[a], 1);
                    add(&[a], 2);
                }
                for &b in &coef {
                    add(&[a, b], 0);
                }
            }
            if blocks.is_empty() {
                return Ok(());
            }
            let mut img = Img::new(0, 8 * blocks.len(), 8, &[(1, 1)]);
            img.comps[0].blocks = blocks;
            // an all-zero block without end-of-block code cannot be coded
            if !has(0) && img.comps[0].blocks.iter().any(|b| b[63] == 0) {
                return Ok(());
            }
            let tabs = [HTable::build(0, 0, &[0, 1, 2, 3, 4], Huff::Skew), HTable::from_lens(1, 0, &lens)];
            let b = seq_with(&img, &tabs);
            ctx.state(&b);
            ctx.describe(|| format!("symbols/lengths {lens:x?}"));
            let d = must(&dec(ctx, V::Mpsc, &b, &Opts::default()), &format!("AC table {lens:x?}"))?;
            let want = must(&dec(ctx, V::Mpsc, &plain(&img), &Opts::default()), "plain tables")?;
            ensure!(d == want, "values", "AC table {lens:x?}: {:?}", first_diff(&d, &want));
            Ok(())
        }
    }));
    models.push(model("large tables: two lengths, every split", |ctx| {
        // k codes of length a, the rest of length b, up to 256 symbols
        let a = ctx.range(1, 15) as u8;
        let b = ctx.range(a as usize + 1, 16) as u8;
        let ka = ctx.pick(&[1usize, 2, 3, 100, 255]).min((1usize << a.min(9)) - 1);
        let room = (((1usize << a) - ka) << (b - a)).min(160);
        let kb = ctx.pick(&[1usize, 7, 255]).min(room).min(250 - ka.min(200));
        let ka = ka.min(200);
        if kb == 0 {
            return Ok(());
        }
        // symbols: EOB first or last, then all run/size pairs of small size
        let mut syms: Vec<u8> = (0..160usize).map(|i| ((i % 16) << 4 | (i / 16 + 1)) as u8).collect();
        if ka + kb > syms.len() {
            syms.extend((0..160u8).filter(|s| s & 15 > 10 || (s & 15 == 0 && *s != 0 && *s != 0xF0)));
        }
        let eob_at = ctx.choose(3);
        let n = (ka + kb).min(syms.len());
        syms.truncate(n);
        syms[[0, n / 2, n - 1][eob_at]] = 0;
        let lens: Vec<(u8, u8)> = syms.iter().enumerate().map(|(i, &s)| (s, if i < ka { a } else { b })).collect();
        let used: Vec<u8> = syms.iter().copied().filter(|s| (1..=10).contains(&(s & 15))).collect();
        if used.is_empty() {
            return Ok(());
        }
        let mut img = Img::new(0, 8 * used.len(), 8, &[(1, 1)]);
        for (i, &s) in used.iter().enumerate() {
            let lo = 1i32 << ((s & 15) - 1);
            let x = lo + (mix(i as u64, s as u64, 4) % lo as u64) as i32;
            img.comps[0].blocks[i][1 + (s >> 4) as usize] = if i % 2 == 0 { x } else { -x } as i16;
            img.comps[0].blocks[i][0] = (i % 3) as i16;
        }
        let v = ctx.pick(&[V::Rayon, V::Pi]);
        let tabs = [HTable::build(0, 0, &[0, 1, 2], Huff::Skew), HTable::from_lens(1, 0, &lens)];
        let bytes = seq_with(&img, &tabs);
        ctx.state(&bytes);
        ctx.describe(|| format!("{ka} codes of {a}, {kb} of {b} bits"));
        let d = must(&dec(ctx, v, &bytes, &Opts::default()), &format!("{ka} codes of {a}, {kb} of {b} bits"))?;
        let want = must(&dec(ctx, v, &plain(&img), &Opts::default()), "plain tables")?;
        ensure!(d == want, "values", "{ka} codes of {a}, {kb} of {b} bits: {:?}", first_diff(&d, &want));
        Ok(())
    }));
    models.push(model("ladders: all but one code of each length, complete up to every length", |ctx| {
        // 2^a - 1 codes of a bits, one of each longer length, and two of the last: the all-ones code is in use
        let lossless = ctx.flag();
        let a = ctx.range(1, if lossless { 4 } else { 7 });
        let m = ctx.range(a + 1, 16);
        let complete = ctx.flag();
        let rot = ctx.choose(if ctx.thorough() { 17 } else { 5 });
        let mut l = vec![a as u8; (1 << a) - 1];
        l.extend((a + 1..=m).map(|x| x as u8));
        if complete {
            l.push(m as u8);
        }
        if lossless {
            if l.len() > 17 {
                return Ok(());
            }
            let n = l.len();
            let sym = |i: usize| ((i * 5 + rot * 3) % 17) as u8;
            let lens: Vec<(u8, u8)> = (0..n).map(|i| (sym(i), l[i])).collect();
            let cats: Vec<u8> = all_words(n, 2).into_iter().map(sym).collect();
            return check_dc(ctx, V::Mpsc, &lens, &cats, rot % 4, &|| format!("categories/lengths {lens:?}"));
        }
        let mut syms: Vec<u8> = (0..160usize).map(|i| ((i % 16) << 4 | (i / 16 + 1)) as u8).collect();
        syms.rotate_left(rot * 16 % 160);
        syms.truncate(l.len());
        // the end of block gets the first, the last or the longest incomplete code
        let n = syms.len();
        syms[[0, n - 1, n - 2, n / 2, n - 1][rot % 5]] = 0;
        let lens: Vec<(u8, u8)> = syms.iter().copied().zip(l).collect();
        let used: Vec<u8> = syms.iter().copied().filter(|s| s & 15 != 0).collect();
        let mut img = Img::new(0, 8 * used.len(), 8, &[(1, 1)]);
        for (i, &s) in used.iter().enumerate() {
            let lo = 1i32 << ((s & 15) - 1);
            let x = lo + (mix(i as u64, s as u64, rot as u64) % lo as u64) as i32;
            img.comps[0].blocks[i][1 + (s >> 4) as usize] = if i % 2 == 0 { x } else { -x } as i16;
            img.comps[0].blocks[i][0] = (i % 3) as i16;
        }
        let tabs = [HTable::build(0, 0, &[0, 1, 2], Huff::Skew), HTable::from_lens(1, 0, &lens)];
        let bytes = seq_with(&img, &tabs);
        ctx.state(&bytes);
        ctx.describe(|| format!("AC symbols/lengths {lens:x?}"));
        let d = must(&dec(ctx, V::Rayon, &bytes, &Opts::default()), &format!("AC table {lens:x?}"))?;
        let want = must(&dec(ctx, V::Rayon, &plain(&img), &Opts::default()), "plain tables")?;
        ensure!(d == want, "values", "AC table {lens:x?}: {:?}", first_diff(&d, &want));
        Ok(())
    }));
    models.push(model("over-subscribed tables are refused", {
        let over = over.clone();
        move |ctx| {
            let l = &over[ctx.choose(over.len())];
            let class = ctx.choose(2) as u8;
            let slot = ctx.choose(2) as u8;
            let mut p = vec![class << 4 | slot];
            let mut bits = [0u8; 16];
            l.iter().for_each(|&x| bits[x as usize - 1] += 1);
            p.extend(bits);
            p.extend((0..l.len()).map(|i| i as u8));
            let img = dct(0, 8, 8, &[(1, 1)], 1);
            let segs = with_head(segments(&img, &qts(), &[Scan::seq(&[0])]), vec![seg(0xC4, &p)]);
            let b = segs.concat();
            ctx.state((&p, class, slot));
            ctx.describe(|| format!("class {class} slot {slot} lengths {l:?}"));
            let o = dec(ctx, V::Pi, &b, &Opts::default());
            ensure!(matches!(o.res, Err(E::Format(_))), "accepted", "class {class} slot {slot} lengths {l:?}: {}", o.brief());
            Ok(())
        }
    }));
    models.push(model("complete tables with one code too many", |ctx| {
        // a complete code with 2^a codes of length a (or a split), plus one more
        let a = ctx.range(1, 8) as u8;
        let split = ctx.range(0, (1usize << a) - 1);
        let deep = ctx.range(0, 16 - a as usize) as u8; // the last `1` leaf is split into a chain this deep
        let extra = ctx.range(0, 16) as u8; // length of the additional code, 0 = none
        let class = ctx.choose(2) as u8;
        if ctx.tier == Tier::Quick && split > 3 && split + 3 < 1 << a {
            return Ok(());
        }
        let mut bits = [0usize; 16];
        bits[a as usize - 1] = (1usize << a) - 1 - split.min((1 << a) - 1);
        // the remaining 1 + split leaves of depth a: one becomes a chain, others one level deeper
        let mut rest = 1 + split;
        if deep > 0 {
            for d in 1..=deep {
                bits[(a + d) as usize - 1] += 1;
            }
            bits[(a + deep) as usize - 1] += 1;
            rest -= 1;
        }
        if a < 16 {
            bits[a as usize] += 2 * rest;
        }
        let complete: usize = bits.iter().enumerate().map(|(i, &n)| n << (15 - i)).sum();
        assert_eq!(complete, 65536);
        if extra > 0 {
            bits[extra as usize - 1] += 1;
        }
        let n: usize = bits.iter().sum();
        if n > 256 || bits.iter().any(|&b| b > 255) {
            return Ok(());
        }
        let mut p = vec![class << 4];
        p.extend(bits.iter().map(|&b| b as u8));
        p.extend((0..n).map(|i| i as u8));
        let img = dct(0, 8, 8, &[(1, 1)], 1);
        let b = with_head(segments(&img, &qts(), &[Scan::seq(&[0])]), vec![seg(0xC4, &p)]).concat();
        ctx.state(&p);
        ctx.describe(|| format!("class {class} counts {bits:?}"));
        let o = dec(ctx, V::Pi, &b, &Opts::default());
        if extra > 0 {
            ensure!(matches!(o.res, Err(E::Format(_))), "accepted", "class {class} counts {bits:?}: {}", o.brief());
        } else {
            must(&o, &format!("class {class} counts {bits:?}"))?;
        }
        Ok(())
    }));
    models.push(model("codes outside the table are refused", {
        let inc: Arc<Vec<Vec<u8>>> = Arc::new((1..=if th { 4 } else { 3 }).flat_map(lens).filter(|x| x.1 < 65536).map(|x| x.0).collect());
        move |ctx| {
            let l = &inc[ctx.choose(inc.len())];
            let class = ctx.choose(3); // 0 sequential DC, 1 AC, 2 lossless
            let pat = ctx.choose(3);
            let align = ctx.pick(&[0usize, 1, 3, 7, 10]);
            let k: u32 = l.iter().map(|&x| 1u32 << (16 - x)).sum();
            // 16-bit patterns that start with no code
            let p = [k, 65535, k + (65535 - k) / 2][pat];
            let lens: Vec<(u8, u8)> = l.iter().enumerate().map(|(i, &x)| (i as u8, x)).collect();
            let mut bw = Bw::default();
            let mut b = SOI.to_vec();
            let img;
            let flat = HTable::from_lens(0, 0, &[(0, 1), (1, 2)]);
            let eob = HTable::from_lens(1, 0, &[(0, 1), (1, 2)]);
            let t = HTable::from_lens((class == 1) as u8, 0, &lens);
            match class {
                2 => {
                    img = Img { prec: 8, ..Img::new(3, 20, 1, &[(1, 1)]) };
                    b.extend(dht(&t));
                    b.extend(sof(&img));
                    b.extend(sos(&img, &Scan::lossless(&[0], 1, 0)));
                    // leading symbols from the table itself (category 0)
                    for _ in 0..align {
                        let (c, n) = t.map[0].unwrap();
                        bw.put(c, n);
                    }
                }
                c => {
                    img = Img::new(0, 8 * 20, 8, &[(1, 1)]);
                    b.extend(dqt(0, 0, &[1; 64]));
                    b.extend(dht(if c == 0 { &t } else { &flat }));
                    b.extend(dht(if c == 0 { &eob } else { &t }));
                    b.extend(sof(&img));
                    b.extend(sos(&img, &Scan::seq(&[0])));
                    for _ in 0..align {
                        // a block: DC 0, EOB
                        if c == 0 {
                            let (x, n) = t.map[0].unwrap();
                            bw.put(x, n);
                            bw.put(0, 1);
                        } else {
                            bw.put(0, 1);
                            let (x, n) = t.map[0].unwrap();
                            bw.put(x, n);
                        }
                    }
                    if c == 1 {
                        bw.put(0, 1); // DC of the failing block
                    }
                }
            }
            bw.put(p, 16);
            bw.put(0, 24);
            bw.flush();
            b.extend(&bw.out);
            b.extend(EOI);
            ctx.state(&b);
            let what = format!("class {class} lengths {l:?}, bits {p:016b} after {align} symbols");
            ctx.describe(|| what.clone());
            let v = if ctx.thorough() { ctx.pick(&ALLV) } else { V::Mpsc };
            let o = dec(ctx, v, &b, &Opts::default());
            ensure!(matches!(o.res, Err(E::Format(_))), "accepted", "{what}: {}", o.brief());
            Ok(())
        }
    }));
    models.push(model("symbols that mean nothing where they stand are refused", |ctx| {
        // 0 sequential DC, 1 progressive DC, 2 lossless, 3 AC refinement
        let class = ctx.choose(4);
        let first = [12usize, 12, 17, 2][class];
        let sym = ctx.range(first, 255) as u8;
        if class == 3 && sym & 15 < 2 {
            return Ok(());
        }
        let len = ctx.range(1, 16) as u8;
        let lead = ctx.pick(&[0usize, 1, 5, 8]); // well-formed blocks or samples before it
        let fill = ctx.flag(); // the bits that follow
        let lens = if len == 1 { vec![(sym, 1u8), (0, 2)] } else { vec![(0u8, 1), (sym, len)] };
        let t = HTable::from_lens((class == 3) as u8, 0, &lens);
        let eob = HTable::from_lens(1, 0, &[(0, 1), (1, 2)]);
        let mut bw = Bw::default();
        let mut good = Bw::default();
        let mut b = SOI.to_vec();
        let n = 12;
        let img = match class {
            0 => Img::new(0, 8 * n, 8, &[(1, 1)]),
            2 => Img { prec: 16, ..Img::new(3, n, 1, &[(1, 1)]) },
            _ => Img::new(2, 8 * n, 8, &[(1, 1)]),
        };
        if class != 2 {
            b.extend(dqt(0, 0, &[1; 64]));
        }
        b.extend(dht(&t));
        b.extend(sof(&img));
        match class {
            0 => {
                b.extend(dht(&eob));
                b.extend(sos(&img, &Scan::seq(&[0])));
            }
            1 => b.extend(sos(&img, &Scan::prog(&[0], 0, 0, 0, ctx.pick(&[0u8, 1, 13])))),
            2 => b.extend(sos(&img, &Scan::lossless(&[0], 1, 0))),
            _ => {
                // a first pass over the AC coefficients that delivers nothing: 12 empty blocks
                b.extend(dht(&HTable::from_lens(1, 1, &[(0, 1)])));
                b.extend([0xFF, 0xDA, 0, 8, 1, img.comps[0].id, 0x01, 1, 63, 0x01]);
                let mut w = Bw::default();
                w.put(0, n as u8);
                w.flush();
                b.extend(&w.out);
                b.extend([0xFF, 0xDA, 0, 8, 1, img.comps[0].id, 0x00, 1, 63, 0x10]);
            }
        }
        let (zc, zn) = t.map[0].unwrap();
        for _ in 0..lead {
            bw.put(zc, zn);
            if class == 0 {
                bw.put(0, 1);
            }
        }
        // the same with the other symbol throughout is decoded
        for _ in 0..n {
            good.put(zc, zn);
            if class == 0 {
                good.put(0, 1);
            }
        }
        good.flush();
        let ok = [&b[..], &good.out, &EOI].concat();
        let (c, l) = t.map[sym as usize].unwrap();
        bw.put(c, l);
        for _ in 0..n * 2 {
            bw.put(if fill { 0xFFFF } else { 0 }, 16);
        }
        bw.flush();
        b.extend(&bw.out);
        b.extend(EOI);
        ctx.state(&b);
        let what = format!("class {class} symbol {sym:02x} of {len} bits after {lead}");
        ctx.describe(|| what.clone());
        let v = if ctx.thorough() { ctx.pick(&ALLV) } else { V::Pi };
        let o = dec(ctx, v, &b, &Opts::default());
        ensure!(matches!(o.res, Err(E::Format(_))), "accepted", "{what}: {}", o.brief());
        must(&dec(ctx, v, &ok, &Opts::default()), &format!("{what}, without it"))?;
        Ok(())
    }));
    models.push(model("byte stuffing at every alignment and at the end of the data", |ctx| {
        // additional bits are all ones, so that FF bytes arise at each alignment; the padding too
        let cat = ctx.range(1, 15) as u8;
        let len = ctx.range(1, 16) as u8;
        let lead = ctx.choose(9);
        let n = ctx.range(1, 12);
        let tail = ctx.choose(8);
        let other = 0u8;
        let lens = if len == 1 { vec![(cat, 1), (other, 2)] } else { vec![(other, 1), (cat, len)] };
        let t = HTable::from_lens(0, 0, &lens);
        let mut img = Img::new(3, lead + n + tail, 1, &[(1, 1)]);
        img.prec = 16;
        let mut prev = 1i64 << 15;
        for i in 0..lead + n + tail {
            if i >= lead && i < lead + n {
                prev = (prev + (1i64 << cat) - 1) & 0xFFFF;
            }
            img.comps[0].samples[i] = prev as u16;
        }
        let b = lossless_with(&img, &t);
        ctx.state(&b);
        ctx.describe(|| format!("category {cat} length {len} lead {lead} n {n} tail {tail}"));
        let v = if ctx.thorough() { ctx.pick(&ALLV) } else { V::Rayon };
        let d = must(&dec(ctx, v, &b, &Opts::default()), "stuffed data")?;
        let want = super::c11::expected(&img, &[0]);
        ensure!(d == want, "values", "category {cat} length {len} lead {lead} n {n} tail {tail}: {:?}", first_diff(&d, &want));
        Ok(())
    }));
    let _ = (valid, over);
    super::spec(
        "all tables of 1..4 codes (thorough 5) with lengths 1..16 x symbol assignments, all words of three difference symbols and all pairs of AC symbols; every difference category and every AC run/size at each code length with all values; tables of up to 250 codes of two lengths; all over-subscribed tables of up to 5 (6) codes; complete codes plus one; all incomplete tables of up to 3 (4) codes x bit patterns outside; every symbol without a meaning (4 kinds of scan) x code length x position; FF bytes at every alignment",
        &["AC values are observed through the inverse transform, relative to the same image coded with equal-length codes (whose pixels C07 checks against the reference)"],
        models,
    )
}
