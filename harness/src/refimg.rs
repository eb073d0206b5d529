//! Reference rendering: float inverse DCT, upsampling and colour conversion.
use crate::jpeg::*;

/// Component plane in samples.
#[derive(Clone, Debug)]
pub struct Plane {
    pub w: usize,
    pub h: usize,
    pub d: Vec<f64>,
}
impl Plane {
    pub fn at(&self, x: usize, y: usize) -> f64 {
        self.d[y * self.w + x]
    }
}

pub struct Idct {
    /// basis[n][x*n+u] = C(u)/2 * cos((2x+1)u pi/2n) for n = 1,2,4,8
    b: [Vec<f64>; 4],
}
impl Idct {
    pub fn new() -> Idct {
        let mk = |n: usize| {
            let mut v = vec![0.0; n * n];
            for x in 0..n {
                for u in 0..n {
                    let c = if u == 0 { (0.5f64).sqrt() } else { 1.0 };
                    v[x * n + u] = c / 2.0 * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / (2 * n) as f64).cos();
                }
            }
            v
        };
        Idct { b: [mk(1), mk(2), mk(4), mk(8)] }
    }
    /// Unclamped samples (level shifted by 128), n x n, from zigzag coefficients and quantisers.
    pub fn block(&self, blk: &Block, q: &[u16; 64], n: usize) -> Vec<f64> {
        let b = &self.b[n.trailing_zeros() as usize];
        let mut f = vec![0.0; n * n]; // f[v*n+u]
        let mut any_ac = false;
        for k in 0..64 {
            let (u, v) = (ZZ[k] % 8, ZZ[k] / 8);
            if u < n && v < n && blk[k] != 0 {
                f[v * n + u] = blk[k] as f64 * q[k] as f64;
                any_ac |= k > 0;
            }
        }
        if !any_ac {
            return vec![f[0] / 8.0 + 128.0; n * n];
        }
        let mut t = vec![0.0; n * n]; // t[v*n+x]
        for v in 0..n {
            for x in 0..n {
                t[v * n + x] = (0..n).map(|u| b[x * n + u] * f[v * n + u]).sum();
            }
        }
        let mut o = vec![0.0; n * n];
        for y in 0..n {
            for x in 0..n {
                o[y * n + x] = 128.0 + (0..n).map(|v| b[y * n + v] * t[v * n + x]).sum::<f64>();
            }
        }
        o
    }
}
thread_local! {
    pub static IDCT: Idct = Idct::new();
}
pub fn clamp(v: f64) -> f64 {
    v.clamp(0.0, 255.0)
}

/// Planes of all components at scale s/8, cropped to their real sample size, clamped.
pub fn planes(img: &Img, q: &Qts, s: usize) -> Vec<Plane> {
    IDCT.with(|id| {
        (0..img.comps.len())
            .map(|i| {
                let c = &img.comps[i];
                let (w, h) = img.csize(i, s);
                let mut p = Plane { w, h, d: vec![0.0; w * h] };
                for by in 0..crate::util::cdiv(h, s) {
                    for bx in 0..crate::util::cdiv(w, s) {
                        let o = id.block(&c.blocks[by * c.pw + bx], &q[c.tq as usize], s);
                        for y in 0..s {
                            for x in 0..s {
                                let (px, py) = (bx * s + x, by * s + y);
                                if px < w && py < h {
                                    p.d[py * w + px] = clamp(o[y * s + x]);
                                }
                            }
                        }
                    }
                }
                p
            })
            .collect()
    })
}

fn lin(i: usize, n: usize) -> (usize, usize) {
    // nearest and second source sample of output position i for a factor of two
    let near = i / 2;
    let far = if i % 2 == 0 { near.saturating_sub(1) } else { (near + 1).min(n - 1) };
    (near, far)
}
/// Value of output sample (x, y); rh, rv = integer upsampling ratios. `linear` says per axis
/// whether a factor of two is interpolated (true) or replicated.
pub fn upsample(p: &Plane, rh: usize, rv: usize, x: usize, y: usize, linear: bool) -> f64 {
    let (xn, xf) = if rh == 2 && linear { lin(x, p.w) } else { (x / rh, x / rh) };
    let (yn, yf) = if rv == 2 && linear { lin(y, p.h) } else { (y / rv, y / rv) };
    (9.0 * p.at(xn, yn) + 3.0 * p.at(xf, yn) + 3.0 * p.at(xn, yf) + p.at(xf, yf)) / 16.0
}

pub fn ycc(y: f64, cb: f64, cr: f64) -> [f64; 3] {
    let (cb, cr) = (cb - 128.0, cr - 128.0);
    [clamp(y + 1.402 * cr), clamp(y - 0.344136286 * cb - 0.714136286 * cr), clamp(y + 1.772 * cb)]
}

/// Output size at scale s/8.
pub fn out_size(img: &Img, s: usize) -> (usize, usize) {
    (crate::util::cdiv(img.w * s, 8), crate::util::cdiv(img.h * s, 8))
}

/// Expected interleaved samples (before colour conversion), with the full-size upsampling rule.
/// Mixed ratios (2 on one axis, 3 or 4 on the other) use the covering sample on both axes, or, with
/// `per_axis`, interpolate the axis with a factor of two (the property allows both).
pub fn interleaved(img: &Img, pl: &[Plane], s: usize, per_axis: bool) -> Vec<f64> {
    let (w, h) = out_size(img, s);
    let n = img.comps.len();
    let mut o = vec![0.0; w * h * n];
    for (i, p) in pl.iter().enumerate() {
        let rh = img.hmax() / img.comps[i].h;
        let rv = img.vmax() / img.comps[i].v;
        let linear = per_axis || (rh <= 2 && rv <= 2);
        for y in 0..h {
            for x in 0..w {
                o[(y * w + x) * n + i] = upsample(p, rh, rv, x, y, linear);
            }
        }
    }
    o
}

/// Largest deviation between decoded bytes and expected values.
pub fn max_dev(got: &[u8], want: &[f64]) -> (f64, usize) {
    let mut m = (0.0, 0);
    for (i, (&g, &w)) in got.iter().zip(want).enumerate() {
        let d = (g as f64 - w).abs();
        if d > m.0 {
            m = (d, i);
        }
    }
    m
}
/// As max_dev, with two admissible values per sample.
pub fn max_dev2(got: &[u8], want: &[f64], alt: &[f64]) -> (f64, usize) {
    let mut m = (0.0, 0);
    for (i, &g) in got.iter().enumerate() {
        let d = (g as f64 - want[i]).abs().min((g as f64 - alt[i]).abs());
        if d > m.0 {
            m = (d, i);
        }
    }
    m
}
