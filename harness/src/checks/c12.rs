use super::bases::*;
use super::*;
use crate::refimg::*;

const SC: [usize; 4] = [8, 4, 2, 1];
/// "Quantisation that represents 8-bit sample data": the ideal samples stay within this range.
const LO: f64 = -256.0;
const HI: f64 = 511.0;
const TOL: f64 = 3.0;

fn req(img: &Img, s: usize) -> Option<(u16, u16)> {
    if s == 8 {
        None
    } else {
        Some((cdiv(img.w * s, 8) as u16, cdiv(img.h * s, 8) as u16))
    }
}
/// One-component image made of the given blocks, `per_row` of them in each row.
fn sheet(sofn: u8, blocks: &[Block], per_row: usize) -> Img {
    let rows = cdiv(blocks.len(), per_row);
    let mut img = Img::new(sofn, per_row * 8, rows * 8, &[(1, 1)]);
    for (i, b) in blocks.iter().enumerate() {
        img.comps[0].blocks[i] = *b;
    }
    img
}
/// Decode a sheet at every scale in every build and compare each block with the ideal transform.
fn compare(ctx: &mut Ctx, blocks: &[Block], q: &[u16; 64], per_row: usize, what: &dyn Fn() -> String) -> R {
    if blocks.is_empty() {
        return Ok(());
    }
    let img = sheet(1, blocks, per_row);
    let qs: Qts = [*q; 4];
    let bytes = stream(&img, &qs, &[Scan::seq(&[0])]);
    ctx.state((&bytes, 0));
    ctx.describe(|| format!("{} ({} blocks)", what(), blocks.len()));
    for s in SC {
        let ideal: Vec<Vec<f64>> = IDCT.with(|id| blocks.iter().map(|b| id.block(b, q, s)).collect());
        // the SIMD code is the full-size transform only
        for v in if s == 8 { with_arch(&ALLV) } else { ALLV.to_vec() } {
            let o = dec(ctx, v, &bytes, &Opts { scale: req(&img, s), ..Default::default() });
            let d = must(&o, "grey image")?;
            let w = per_row * s;
            ctx.outcome(&d);
            ensure!(d.len() == w * cdiv(blocks.len(), per_row) * s, "size", "{v:?} scale {s}/8: {} bytes", d.len());
            for (i, id) in ideal.iter().enumerate() {
                // 8-bit samples give |F| <= 1024; rounding to a multiple of the quantiser adds half of it
                if (0..64).any(|k| blocks[i][k] as f64 * q[k] as f64 > 1024.0 + q[k] as f64 / 2.0 || (blocks[i][k] as f64 * q[k] as f64) < -1024.0 - q[k] as f64 / 2.0) || id.iter().any(|&x| !(LO..=HI).contains(&x)) {
                    ctx.count("blocks_out_of_sample_range", 1);
                    continue;
                }
                ctx.count("blocks_compared", 1);
                let (bx, by) = (i % per_row * s, i / per_row * s);
                for y in 0..s {
                    for x in 0..s {
                        let g = d[(by + y) * w + bx + x] as f64;
                        let e = clamp(id[y * s + x]);
                        if (g - e).abs() > TOL {
                            let nz: Vec<(usize, i16, u16)> = (0..64).filter(|&k| blocks[i][k] != 0).map(|k| (k, blocks[i][k], q[k])).collect();
                            return fail("accuracy", format!("{v:?} scale {s}/8, {}: sample ({x},{y}) is {g}, ideal {e:.3}; (zigzag index, coefficient, quantiser) {nz:?}", what()));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
fn qtab(i: usize) -> [u16; 64] {
    let mut q = [1u16; 64];
    for (k, x) in q.iter_mut().enumerate() {
        *x = match i {
            0 => 1,
            1 => 1 + k as u16,
            2 => [16, 11, 12, 14, 12, 10, 16, 14, 13, 14, 18, 17, 16, 19, 24, 40, 26, 24, 22, 22, 24, 49, 35, 37, 29, 40, 58, 51, 61, 60, 57, 51, 56, 55, 64, 72, 92, 78, 64, 68, 87, 69, 55, 56, 80, 109, 81, 87, 95, 98, 103, 104, 103, 62, 77, 113, 121, 112, 100, 120, 92, 101, 103, 99][k],
            3 => 255 - k as u16,
            4 => 64,
            5 => 3 + (k as u16 * 5) % 11,
            _ => 300 + 7 * k as u16,
        };
    }
    q
}
/// Forward DCT of 8x8 samples (0..255), quantised by q, rounded.
fn fdct(s: &[f64; 64], q: &[u16; 64]) -> Block {
    let b: Vec<f64> = (0..64)
        .map(|i| {
            let (x, u) = (i / 8, i % 8);
            let c = if u == 0 { 0.5f64.sqrt() } else { 1.0 };
            c / 2.0 * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos()
        })
        .collect();
    let mut t = [0.0; 64];
    for y in 0..8 {
        for u in 0..8 {
            t[y * 8 + u] = (0..8).map(|x| b[x * 8 + u] * (s[y * 8 + x] - 128.0)).sum();
        }
    }
    let mut o = [0i16; 64];
    for k in 0..64 {
        let (u, v) = (ZZ[k] % 8, ZZ[k] / 8);
        let f: f64 = (0..8).map(|y| b[y * 8 + v] * t[y * 8 + u]).sum();
        o[k] = (f / q[k] as f64).round() as i16;
    }
    o
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    models.push(model("one coefficient: every position and value", move |ctx| {
        let qi = ctx.choose(7);
        let q = qtab(qi);
        let k = ctx.choose(64);
        let dc = ctx.pick(if ctx.thorough() { &[0i32, 400, -400, 900, -1000][..] } else { &[0i32, -400][..] });
        let lim = (1024 + q[k] as i32 / 2) / q[k] as i32;
        let step = if ctx.thorough() || lim < 300 { 1 } else { 5 };
        let mut blocks = vec![];
        let mut v = -lim;
        while v <= lim {
            let mut b = [0i16; 64];
            b[0] = (dc / q[0] as i32) as i16;
            b[k] = v as i16;
            blocks.push(b);
            v += step;
        }
        compare(ctx, &blocks, &q, 16, &|| format!("coefficient {k}, quantiser {}, all values, DC {dc}", q[k]))
    }));
    models.push(model("two coefficients: every pair of positions", move |ctx| {
        let q = qtab(ctx.pick(if ctx.thorough() { &[0usize, 1, 2, 3, 6][..] } else { &[2usize, 5][..] }));
        let i = ctx.choose(63);
        let dc = ctx.pick(&[0i32, 480, -720]);
        let vals: &[i32] = if ctx.thorough() { &[-1000, -512, -100, -9, 1, 33, 257, 700, 1023] } else { &[-1000, -100, 33, 700] };
        let mut blocks = vec![];
        for j in i + 1..64 {
            for &a in vals {
                for &b in vals {
                    let mut x = [0i16; 64];
                    x[0] = (dc / q[0] as i32) as i16;
                    x[i] = (a / q[i] as i32) as i16;
                    x[j] = (b / q[j] as i32) as i16;
                    blocks.push(x);
                }
            }
        }
        compare(ctx, &blocks, &q, 32, &|| format!("coefficients {i} and every later one, DC {dc}"))
    }));
    models.push(model("every separable two-level sample pattern", move |ctx| {
        // samples lo/hi by the product of a row pattern and a column pattern: 2^16 of them
        let a = ctx.choose(256);
        let (lo, hi) = ctx.pick(if ctx.thorough() { &[(0.0, 255.0), (255.0, 0.0), (100.0, 140.0), (0.0, 128.0)][..] } else { &[(0.0, 255.0), (60.0, 180.0)][..] });
        let q = qtab(ctx.pick(if ctx.thorough() { &[0usize, 1, 2, 3, 4, 5, 6][..] } else { &[0usize, 2, 3, 6][..] }));
        let xor = ctx.flag();
        let blocks: Vec<Block> = (0..256usize)
            .map(|b| {
                let mut s = [0.0; 64];
                for y in 0..8 {
                    for x in 0..8 {
                        let (p, r) = (a >> y & 1, b >> x & 1);
                        s[y * 8 + x] = if (if xor { p ^ r } else { p & r }) == 1 { hi } else { lo };
                    }
                }
                fdct(&s, &q)
            })
            .collect();
        compare(ctx, &blocks, &q, 16, &|| format!("samples {lo}/{hi}, rows {a:08b}, all column patterns, xor {xor}"))
    }));
    models.push(model("single and double spikes", move |ctx| {
        // one or two outstanding samples on a flat or ramped ground
        let p = ctx.choose(64);
        let ground = ctx.choose(4);
        let q = qtab(ctx.pick(if ctx.thorough() { &[0usize, 1, 2, 3, 4, 5, 6][..] } else { &[0usize, 2, 3][..] }));
        let inv = ctx.flag();
        let blocks: Vec<Block> = (0..64usize)
            .map(|r| {
                let mut s = [0.0; 64];
                for (i, v) in s.iter_mut().enumerate() {
                    *v = match ground {
                        0 => 0.0,
                        1 => 255.0,
                        2 => (i % 8 * 36) as f64,
                        _ => (i / 8 * 36) as f64,
                    };
                }
                for i in [p, r] {
                    s[i] = if inv { 0.0 } else { 255.0 };
                }
                fdct(&s, &q)
            })
            .collect();
        compare(ctx, &blocks, &q, 64, &|| format!("spike at {p} and every other, ground {ground}"))
    }));
    models.push(model("sign patterns of the low or of a diagonal band", move |ctx| {
        // all sign patterns of 8 coefficients on a stride through the zigzag, and magnitudes
        let start = ctx.range(1, 56);
        let stride = ctx.pick(&[1usize, 3, 8]);
        if start + 7 * stride > 63 {
            return Ok(());
        }
        let m = ctx.pick(if ctx.thorough() { &[5i32, 50, 110, 170][..] } else { &[90i32][..] });
        let dc = ctx.pick(&[0i32, 600]);
        let q = qtab(ctx.pick(&[0usize, 2]));
        let blocks: Vec<Block> = (0..256usize)
            .map(|s| {
                let mut b = [0i16; 64];
                b[0] = (dc / q[0] as i32) as i16;
                for i in 0..8 {
                    let k = start + i * stride;
                    let v = m / q[k] as i32;
                    b[k] = if s >> i & 1 == 1 { v } else { -v } as i16;
                }
                b
            })
            .collect();
        compare(ctx, &blocks, &q, 8, &|| format!("signs of 8 coefficients from {start} step {stride}, magnitude {m}"))
    }));
    models.push(model("position independence", move |ctx| {
        let kind = ctx.choose(4);
        let (bw, bh) = ctx.pick(if ctx.thorough() { &[(1usize, 1usize), (2, 1), (3, 3), (7, 2), (16, 3), (17, 4), (33, 5)][..] } else { &[(2, 2), (5, 3), (17, 4)][..] });
        let s = ctx.pick(&SC);
        let v = ctx.pick(&with_arch(&ALLV));
        let cut = ctx.choose(8);
        let img0 = dct(1, bw * 8, bh * 8, &[(1, 1)], 41);
        let q = qts();
        let probe: Block = match kind {
            0 => busy_block(77, 1, 5, 5),
            1 => fdct(&{ let mut s = [0.0; 64]; for (i, x) in s.iter_mut().enumerate() { *x = if (i % 8 + i / 8) % 2 == 0 { 255.0 } else { 0.0 } } s }, &q[0]),
            2 => { let mut b = [0i16; 64]; b[0] = 101; b },
            _ => { let mut b = [0i16; 64]; for (k, x) in b.iter_mut().enumerate() { *x = 7 - (k as i16 % 13) } b },
        };
        let mut first: Option<Vec<u8>> = None;
        for pos in 0..bw * bh {
            let mut img = img0.clone();
            img.w -= cut;
            img.comps[0].blocks[pos] = probe;
            let bytes = stream(&img, &q, &[Scan::seq(&[0]).huff(Huff::Skew)]);
            ctx.state((&bytes, s, v));
            let o = dec(ctx, v, &bytes, &Opts { scale: req(&img, s), ..Default::default() });
            let d = must(&o, "grey image")?;
            let (ow, oh) = out_size(&img, s);
            let (bx, by) = (pos % bw * s, pos / bw * s);
            let mut got = vec![];
            for y in 0..s {
                for x in 0..s {
                    // cropped samples: fill in from the first occurrence
                    let z = if bx + x < ow && by + y < oh { d[(by + y) * ow + bx + x] as i32 } else { -1 };
                    got.push(z);
                }
            }
            match &first {
                None => {
                    if got.iter().all(|&x| x >= 0) {
                        first = Some(got.iter().map(|&x| x as u8).collect());
                    }
                }
                Some(f) => {
                    let bad = got.iter().zip(f).position(|(&g, &f)| g >= 0 && g != f as i32);
                    ensure!(bad.is_none(), "position", "{v:?} scale {s}/8: block kind {kind} at ({}, {}) of {bw}x{bh} blocks (width {}) gives {got:?}, elsewhere {f:?}", pos % bw, pos / bw, img.w);
                }
            }
        }
        ctx.describe(|| format!("probe {kind} at every position of {bw}x{bh} blocks, scale {s}/8 {v:?}"));
        Ok(())
    }));
    let _ = th;
    super::spec(
        "each zigzag position x all values (step 5 where more than 300; thorough 1); all pairs of positions x 4x4 values (thorough 9x9); all 2^16 separable two-level 8x8 sample patterns x and/xor; all pairs of spikes; all sign patterns of 8 coefficients; 2-7 quantisation tables; 4 scales x 3 builds, and the wasm32 SIMD and NEON code at full size; probe block at every position",
        &["blocks whose ideal samples leave [-256, 511] are not judged (no 8-bit sample data quantises to them)", "reference transform in f64, tolerance 3 levels"],
        models,
    )
}
