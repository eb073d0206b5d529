use super::bases::*;
use super::*;
use crate::refimg::*;

/// An image whose samples at scale 1/8 are exactly the given values: one DC-only block per sample.
/// f(component, x, y) -> sample; the padding blocks get f too.
pub fn exact(w: usize, h: usize, factors: &[(usize, usize)], f: impl Fn(usize, usize, usize) -> u8) -> Img {
    let mut img = Img::new(0, w * 8, h * 8, factors);
    fill_blocks(&mut img, |c, x, y| {
        let mut b = [0i16; 64];
        b[0] = f(c, x, y) as i16 - 128;
        b
    });
    img
}
pub fn exact_stream(img: &Img) -> Vec<u8> {
    let all: Vec<usize> = (0..img.comps.len()).collect();
    if legal_group(img, &all) {
        stream(img, &q_flat(8), &[Scan::seq(&all)])
    } else {
        let s: Vec<Scan> = all.iter().map(|&c| Scan::seq(&[c])).collect();
        stream(img, &q_flat(8), &s)
    }
}
/// Worst deviation allowed from the real-valued conversion of the sample triple: rounding to the
/// nearest level (0.5) is what an exact implementation needs; the property allows one level.
const TOL: f64 = 1.0 + 1e-9;

fn check_px(got: &[u8], want: [f64; 3]) -> bool {
    (0..3).all(|i| (got[i] as f64 - want[i]).abs() <= TOL)
}

/// Sample sets that exercise carries, saturation and every lane.
const VALS: [u8; 12] = [0, 1, 2, 15, 63, 127, 128, 129, 200, 253, 254, 255];

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    models.push(model("all 2^24 YCbCr triples", move |ctx| {
        let k = ctx.choose(256);
        let v = ctx.pick(&with_arch(&ALLV[if ctx.thorough() { 0 } else { 1 }..]));
        let ycck = ctx.thorough() && ctx.flag();
        let val = |c: usize, x: usize, y: usize| match c {
            0 => y as u8,
            1 => (x * 37 + y) as u8,
            2 => (k + 3 * x + y) as u8,
            _ => (x ^ y ^ k) as u8,
        };
        let n = if ycck { 4 } else { 3 };
        let img = exact(256, 256, &vec![(1, 1); n], val);
        let bytes = exact_stream(&img);
        ctx.state((k, ycck, v));
        ctx.describe(|| format!("65536 triples, slice {k}, {v:?}, ycck {ycck}"));
        let o = dec(ctx, v, &bytes, &Opts { scale: Some((256, 256)), ct: Some(if ycck { Ct::Ycck } else { Ct::YCbCr }), limit: None });
        let d = must(&o, "colour image")?;
        ctx.outcome(&d);
        ensure!(d.len() == 65536 * n, "size", "{} bytes", d.len());
        for y in 0..256 {
            for x in 0..256 {
                let p = &d[(y * 256 + x) * n..];
                let (a, b, c) = (val(0, x, y), val(1, x, y), val(2, x, y));
                let e = ycc(a as f64, b as f64, c as f64);
                ensure!(check_px(p, e), "ycc", "{v:?} YCbCr ({a}, {b}, {c}) at column {x} of 256 gives {:?}, exact {e:.2?}", &p[..3]);
                if ycck {
                    ensure!(p[3] == 255 - val(3, x, y), "k", "{v:?} K {} gives {}", val(3, x, y), p[3]);
                }
            }
        }
        ctx.count("triples", 65536);
        Ok(())
    }));
    models.push(model("every line length and position", move |ctx| {
        let w = ctx.range(1, if ctx.thorough() { 80 } else { 50 });
        let mode = ctx.pick(&[Ct::YCbCr, Ct::Rgb, Ct::None, Ct::Cmyk, Ct::Ycck]);
        let v = ctx.pick(&with_arch(&ALLV));
        let n4 = ctx.flag();
        let n = match mode {
            Ct::YCbCr | Ct::Rgb => 3,
            Ct::None => 3 + n4 as usize,
            _ => 4,
        };
        if mode != Ct::None && n4 {
            return Ok(());
        }
        // every row shifts the samples by one, so every value meets every position
        let h = 144;
        let val = |c: usize, x: usize, y: usize| {
            let i = x + y;
            VALS[match c {
                0 => i % 12,
                1 => (i / 12) % 12,
                2 => (i + i / 12 * 5 + 3) % 12,
                _ => (i * 7 + 1) % 12,
            }]
        };
        let img = exact(w, h, &vec![(1, 1); n], val);
        let bytes = exact_stream(&img);
        ctx.state((w, mode, v, n));
        ctx.describe(|| format!("line length {w}, {n} components as {mode:?}, {v:?}"));
        let o = dec(ctx, v, &bytes, &Opts { scale: Some((w as u16, h as u16)), ct: Some(mode), limit: None });
        let d = must(&o, "colour image")?;
        ctx.outcome(&d);
        ensure!(d.len() == w * h * n, "size", "{} bytes", d.len());
        for y in 0..h {
            for x in 0..w {
                let p = &d[(y * w + x) * n..][..n];
                let s: Vec<u8> = (0..n).map(|c| val(c, x, y)).collect();
                let ok = match mode {
                    Ct::Rgb | Ct::None => p == &s[..],
                    Ct::Cmyk => p.iter().zip(&s).all(|(a, b)| *a == 255 - *b),
                    Ct::YCbCr => check_px(p, ycc(s[0] as f64, s[1] as f64, s[2] as f64)),
                    _ => check_px(p, ycc(s[0] as f64, s[1] as f64, s[2] as f64)) && p[3] == 255 - s[3],
                };
                ensure!(ok, "line", "{v:?} {mode:?}: samples {s:?} at column {x} of {w}, row {y} give {p:?}");
            }
        }
        Ok(())
    }));
    models.push(model("line padding: full size, subsampled, wide", move |ctx| {
        // flat 8x8 areas at full size: widths not a multiple of the block or of the SIMD vector
        let w = ctx.pick(if ctx.thorough() { &[1usize, 2, 7, 8, 9, 13, 15, 16, 17, 23, 24, 25, 31, 33, 47, 100, 127, 128, 129, 131, 136, 137, 150, 200, 257][..] } else { &[1usize, 5, 8, 15, 17, 23, 33, 127, 129, 141, 200][..] });
        let f = ctx.pick(&[vec![(1, 1); 3], vec![(2, 2), (1, 1), (1, 1)], vec![(1, 1), (2, 1), (1, 2)], vec![(1, 1); 4], vec![(2, 1), (1, 1), (1, 1), (2, 1)]]);
        let n = f.len();
        let h = ctx.pick(&[1usize, 9, 21]);
        let v = ctx.pick(&with_arch(&ALLV));
        let mode = if n == 3 { ctx.pick(&[Ct::YCbCr, Ct::Rgb, Ct::None]) } else { ctx.pick(&[Ct::Cmyk, Ct::Ycck, Ct::None]) };
        let mut img = Img::new(0, w, h, &f);
        fill_blocks(&mut img, |c, x, y| {
            let mut b = [0i16; 64];
            b[0] = VALS[(x * 5 + y * 7 + c * 3) % 12] as i16 - 128;
            b
        });
        let bytes = exact_stream(&img);
        ctx.state((&bytes, mode, v));
        ctx.describe(|| format!("{f:?} {w}x{h} {mode:?} {v:?}"));
        let pl = planes(&img, &q_flat(8), 8);
        let s = interleaved(&img, &pl, 8, false);
        let o = dec(ctx, v, &bytes, &Opts { ct: Some(mode), ..Default::default() });
        let d = must(&o, "colour image")?;
        ctx.outcome(&d);
        ensure!(d.len() == s.len(), "size", "{} bytes instead of {}", d.len(), s.len());
        let flat = f.iter().all(|x| *x == f[0]);
        for i in 0..w * h {
            let p = &d[i * n..][..n];
            let s = &s[i * n..][..n];
            // interpolation may round the samples by one before conversion
            let slack = if flat { 0.0 } else { 1.0 };
            let near = |g: u8, e: f64, k: f64| (g as f64 - e).abs() <= TOL * k + 0.5 + slack * 2.0;
            let ok = match mode {
                Ct::Rgb | Ct::None => p.iter().zip(s).all(|(a, b)| (*a as f64 - b).abs() <= slack),
                Ct::Cmyk => p.iter().zip(s).all(|(a, b)| (255.0 - *a as f64 - b).abs() <= slack),
                _ => {
                    let e = ycc(s[0], s[1], s[2]);
                    (0..3).all(|j| near(p[j], e[j], 1.0)) && (n == 3 || (255.0 - p[3] as f64 - s[3]).abs() <= slack)
                }
            };
            ensure!(ok, "padding", "{v:?} {mode:?} {f:?} {w}x{h}: pixel ({}, {}) is {p:?}, samples {s:.2?}", i % w, i / w);
        }
        Ok(())
    }));
    models.push(model("progressive and default transforms", move |ctx| {
        // without override: YCbCr (JFIF, Adobe 1), RGB (ids, Adobe 0), CMYK, YCCK (Adobe 2)
        let kind = ctx.choose(7);
        let w = ctx.pick(&[3usize, 9, 24, 31]);
        let v = ctx.pick(&with_arch(&ALLV));
        let prog = ctx.flag();
        let n = if kind < 4 { 3 } else { 4 };
        let val = |c: usize, x: usize, y: usize| VALS[(x * 5 + y * 7 + c * 3) % 12];
        let mut img = exact(w, 12, &vec![(1, 1); n], val);
        let mut head = vec![];
        if kind == 1 || kind == 2 {
            (0..3).for_each(|i| img.comps[i].id = 10 + i as u8);
        }
        match kind {
            0 => head.push(app(0, JFIF)),
            1 => head.push(adobe(1)),
            2 => head.push(adobe(0)),
            3 => (0..3).for_each(|i| img.comps[i].id = b"RGB"[i]),
            4 => {}
            5 => head.push(adobe(0)),
            _ => head.push(adobe(2)),
        }
        let all: Vec<usize> = (0..n).collect();
        let scan = if prog {
            img.sof = 2;
            Scan::prog(&all, 0, 0, 0, 0)
        } else {
            Scan::seq(&all)
        };
        let bytes = with_head(segments(&img, &q_flat(8), &[scan]), head).concat();
        ctx.state((&bytes, v));
        ctx.describe(|| format!("kind {kind} width {w} progressive {prog} {v:?}"));
        let o = dec(ctx, v, &bytes, &Opts { scale: Some((w as u16, 12)), ..Default::default() });
        let d = must(&o, "colour image")?;
        ctx.outcome(&d);
        for y in 0..12 {
            for x in 0..w {
                let p = &d[(y * w + x) * n..][..n];
                let s: Vec<u8> = (0..n).map(|c| val(c, x, y)).collect();
                let e = ycc(s[0] as f64, s[1] as f64, s[2] as f64);
                let ok = match kind {
                    0 | 1 => check_px(p, e),
                    2 | 3 => p == &s[..],
                    4 | 5 => p.iter().zip(&s).all(|(a, b)| *a == 255 - *b),
                    _ => check_px(p, e) && p[3] == 255 - s[3],
                };
                ensure!(ok, "default", "{v:?} kind {kind}: samples {s:?} at column {x} of {w} give {p:?}");
            }
        }
        Ok(())
    }));
    let _ = th;
    super::spec(
        "all 2^24 YCbCr triples in the SIMD, the portable, the wasm32 SIMD and the NEON code (thorough: also through YCCK and the thread pool build); line lengths 1..50 (thorough 80) x every position x 12 sample values x 5 transforms x 5 builds; subsampled and wide full-size lines",
        &["samples are delivered as DC-only blocks at scale 1/8, where the inverse transform is exact"],
        models,
    )
}
