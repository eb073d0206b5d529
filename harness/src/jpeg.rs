//! Independent JPEG writer: abstract images, scans, tables and segments.
use crate::util::cdiv;

#[rustfmt::skip]
pub const ZZ: [usize; 64] = [
     0,  1,  8, 16,  9,  2,  3, 10, 17, 24, 32, 25, 18, 11,  4,  5,
    12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13,  6,  7, 14, 21, 28,
    35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51,
    58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];

/// Coefficients in zigzag order.
pub type Block = [i16; 64];

#[derive(Clone, Debug)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: u8,
    /// padded grid (whole MCUs)
    pub pw: usize,
    pub ph: usize,
    pub blocks: Vec<Block>,
    /// lossless samples, raster order, image size (used when sof == 3)
    pub samples: Vec<u16>,
}
#[derive(Clone, Debug)]
pub struct Img {
    /// SOF number: 0 baseline, 1 extended, 2 progressive, 3 lossless
    pub sof: u8,
    pub prec: u8,
    pub w: usize,
    pub h: usize,
    pub comps: Vec<Comp>,
}
impl Img {
    /// factors: (h, v) per component; ids 1.. (or as set afterwards), all use table 0
    pub fn new(sof: u8, w: usize, h: usize, factors: &[(usize, usize)]) -> Img {
        let hm = factors.iter().map(|f| f.0).max().unwrap();
        let vm = factors.iter().map(|f| f.1).max().unwrap();
        let mx = cdiv(w, 8 * hm);
        let my = cdiv(h, 8 * vm);
        let comps = factors
            .iter()
            .enumerate()
            .map(|(i, &(fh, fv))| Comp {
                id: i as u8 + 1,
                h: fh,
                v: fv,
                tq: 0,
                pw: mx * fh,
                ph: my * fv,
                blocks: vec![[0; 64]; if sof == 3 { 0 } else { mx * fh * my * fv }],
                samples: vec![0; if sof == 3 { w * h } else { 0 }],
            })
            .collect();
        Img { sof, prec: 8, w, h, comps }
    }
    pub fn hmax(&self) -> usize {
        self.comps.iter().map(|c| c.h).max().unwrap()
    }
    pub fn vmax(&self) -> usize {
        self.comps.iter().map(|c| c.v).max().unwrap()
    }
    pub fn mcus(&self) -> (usize, usize) {
        (cdiv(self.w, 8 * self.hmax()), cdiv(self.h, 8 * self.vmax()))
    }
    /// Component size in samples at scale s/8.
    pub fn csize(&self, i: usize, s: usize) -> (usize, usize) {
        let c = &self.comps[i];
        (cdiv(self.w * c.h * s, self.hmax() * 8), cdiv(self.h * c.v * s, self.vmax() * 8))
    }
    /// Number of blocks of a component that carry image data (non-interleaved scans code these).
    pub fn cblocks(&self, i: usize) -> (usize, usize) {
        let c = &self.comps[i];
        let cw = cdiv(self.w * c.h, self.hmax());
        let ch = cdiv(self.h * c.v, self.vmax());
        (cdiv(cw, 8), cdiv(ch, 8))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Huff {
    /// T.81 Annex K tables (sequential only); slot 0 luma, 1 chroma
    Std,
    /// all used symbols get equal code lengths
    Flat,
    /// lengths 1,2,3,.. up to 8, the rest longer
    Skew,
    /// every code has 16 bits
    Long,
}

#[derive(Clone, Debug)]
pub struct Scan {
    /// component indices
    pub comps: Vec<usize>,
    pub td: Vec<u8>,
    pub ta: Vec<u8>,
    pub ss: u8,
    pub se: u8,
    pub ah: u8,
    pub al: u8,
    /// restart interval in MCUs, 0 = none
    pub ri: usize,
    /// longest EOB run to use (1 = none); power-of-two categories follow
    pub eob_max: usize,
    pub huff: Huff,
}
impl Scan {
    pub fn seq(comps: &[usize]) -> Scan {
        Scan { comps: comps.to_vec(), td: vec![0; comps.len()], ta: vec![0; comps.len()], ss: 0, se: 63, ah: 0, al: 0, ri: 0, eob_max: 1, huff: Huff::Flat }
    }
    pub fn prog(comps: &[usize], ss: u8, se: u8, ah: u8, al: u8) -> Scan {
        Scan { ss, se, ah, al, eob_max: 32767, ..Scan::seq(comps) }
    }
    pub fn lossless(comps: &[usize], pred: u8, pt: u8) -> Scan {
        Scan { ss: pred, se: 0, ah: 0, al: pt, ..Scan::seq(comps) }
    }
    pub fn ri(mut self, n: usize) -> Scan {
        self.ri = n;
        self
    }
    pub fn huff(mut self, h: Huff) -> Scan {
        self.huff = h;
        self
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    /// class (0 dc, 1 ac), table slot, symbol
    Sym(u8, u8, u8),
    Bits(u32, u8),
    Rst,
}

fn cat(v: i32) -> u8 {
    (32 - v.unsigned_abs().leading_zeros()) as u8
}
fn extra(v: i32, s: u8) -> u32 {
    if v >= 0 {
        v as u32
    } else {
        (v + (1i32 << s) - 1) as u32
    }
}

/// Division by 2^al of a coefficient as G.1.2.1 (DC: arithmetic shift) / G.1.2.2 (AC: toward zero).
pub fn shift_dc(v: i16, al: u8) -> i32 {
    (v as i32) >> al
}
pub fn shift_ac(v: i16, al: u8) -> i32 {
    if v >= 0 {
        (v as i32) >> al
    } else {
        -((-(v as i32)) >> al)
    }
}

/// The list of (component position in scan, block index) groups, one per MCU.
pub fn mcu_blocks(img: &Img, scan: &Scan) -> Vec<Vec<(usize, usize)>> {
    let mut out = vec![];
    if scan.comps.len() == 1 {
        let c = scan.comps[0];
        let (bw, bh) = img.cblocks(c);
        for y in 0..bh {
            for x in 0..bw {
                out.push(vec![(0, y * img.comps[c].pw + x)]);
            }
        }
    } else {
        let (mx, my) = img.mcus();
        for y in 0..my {
            for x in 0..mx {
                let mut m = vec![];
                for (p, &c) in scan.comps.iter().enumerate() {
                    let k = &img.comps[c];
                    for v in 0..k.v {
                        for h in 0..k.h {
                            m.push((p, (y * k.v + v) * k.pw + x * k.h + h));
                        }
                    }
                }
                out.push(m);
            }
        }
    }
    out
}

/// Symbols of one scan of a DCT image.
pub fn scan_ops(img: &Img, scan: &Scan) -> Vec<Op> {
    let mut ops = vec![];
    let mut pred = vec![0i32; scan.comps.len()];
    let mut eob: usize = 0; // pending end-of-band run
    let mut corr: Vec<u32> = vec![]; // correction bits pending with the run
    let tac = scan.ta[0];
    fn flush_eob(ops: &mut Vec<Op>, eob: &mut usize, corr: &mut Vec<u32>, t: u8) {
        if *eob > 0 {
            let r = (usize::BITS - 1 - eob.leading_zeros()) as u8;
            ops.push(Op::Sym(1, t, r << 4));
            if r > 0 {
                ops.push(Op::Bits((*eob - (1 << r)) as u32, r));
            }
            *eob = 0;
        }
        for b in corr.drain(..) {
            ops.push(Op::Bits(b, 1));
        }
    }
    for (n, mcu) in mcu_blocks(img, scan).into_iter().enumerate() {
        if scan.ri > 0 && n > 0 && n % scan.ri == 0 {
            flush_eob(&mut ops, &mut eob, &mut corr, tac);
            ops.push(Op::Rst);
            pred.iter_mut().for_each(|p| *p = 0);
        }
        for (p, b) in mcu {
            let blk = &img.comps[scan.comps[p]].blocks[b];
            let (td, ta) = (scan.td[p], scan.ta[p]);
            if img.sof != 2 {
                let d = blk[0] as i32 - pred[p];
                pred[p] = blk[0] as i32;
                let s = cat(d);
                ops.push(Op::Sym(0, td, s));
                if s > 0 {
                    ops.push(Op::Bits(extra(d, s), s));
                }
                ac_first(&mut ops, blk, 1, 63, 0, ta, None, 1);
            } else if scan.ss == 0 {
                if scan.ah == 0 {
                    let v = shift_dc(blk[0], scan.al);
                    let d = v - pred[p];
                    pred[p] = v;
                    let s = cat(d);
                    ops.push(Op::Sym(0, td, s));
                    if s > 0 {
                        ops.push(Op::Bits(extra(d, s), s));
                    }
                } else {
                    ops.push(Op::Bits(((blk[0] as i32 >> scan.al) & 1) as u32, 1));
                }
            } else if scan.ah == 0 {
                // AC first
                let any = (scan.ss..=scan.se).any(|k| shift_ac(blk[k as usize], scan.al) != 0);
                if any {
                    flush_eob(&mut ops, &mut eob, &mut corr, ta);
                }
                ac_first(&mut ops, blk, scan.ss, scan.se, scan.al, ta, Some(&mut eob), scan.eob_max);
                if eob >= scan.eob_max {
                    flush_eob(&mut ops, &mut eob, &mut corr, ta);
                }
            } else {
                ac_refine(&mut ops, blk, scan, ta, &mut eob, &mut corr);
                if eob >= scan.eob_max || corr.len() > 900 {
                    flush_eob(&mut ops, &mut eob, &mut corr, ta);
                }
            }
        }
    }
    flush_eob(&mut ops, &mut eob, &mut corr, tac);
    return ops;

    #[allow(clippy::too_many_arguments)]
    fn ac_first(ops: &mut Vec<Op>, blk: &Block, ss: u8, se: u8, al: u8, ta: u8, eob: Option<&mut usize>, _max: usize) {
        let mut run = 0;
        for k in ss..=se {
            let v = shift_ac(blk[k as usize], al);
            if v == 0 {
                run += 1;
                continue;
            }
            while run > 15 {
                ops.push(Op::Sym(1, ta, 0xF0));
                run -= 16;
            }
            let s = cat(v);
            ops.push(Op::Sym(1, ta, (run << 4) | s));
            ops.push(Op::Bits(extra(v, s), s));
            run = 0;
        }
        if run > 0 {
            match eob {
                Some(e) => *e += 1,
                None => ops.push(Op::Sym(1, ta, 0)),
            }
        }
    }
    fn ac_refine(ops: &mut Vec<Op>, blk: &Block, scan: &Scan, ta: u8, eob: &mut usize, corr: &mut Vec<u32>) {
        // position of the last newly nonzero coefficient
        let mut last_new = 0u8;
        for k in scan.ss..=scan.se {
            if shift_ac(blk[k as usize], scan.al).abs() == 1 {
                last_new = k;
            }
        }
        let mut r = 0u8;
        let mut local: Vec<u32> = vec![];
        for k in scan.ss..=scan.se {
            let v = shift_ac(blk[k as usize], scan.al);
            let a = v.abs();
            if a == 0 {
                r += 1;
                continue;
            }
            while r > 15 && k <= last_new {
                flush_eob(ops, eob, corr, ta);
                ops.push(Op::Sym(1, ta, 0xF0));
                r -= 16;
                for b in local.drain(..) {
                    ops.push(Op::Bits(b, 1));
                }
            }
            if a > 1 {
                local.push((a & 1) as u32);
                continue;
            }
            flush_eob(ops, eob, corr, ta);
            ops.push(Op::Sym(1, ta, (r << 4) | 1));
            ops.push(Op::Bits((v > 0) as u32, 1));
            for b in local.drain(..) {
                ops.push(Op::Bits(b, 1));
            }
            r = 0;
        }
        if r > 0 || !local.is_empty() {
            *eob += 1;
            corr.append(&mut local);
        }
    }
}

/// T.81 Table H.1
pub fn predict(pred: u8, ra: i32, rb: i32, rc: i32) -> i32 {
    match pred {
        0 => 0,
        1 => ra,
        2 => rb,
        3 => rc,
        4 => ra + rb - rc,
        5 => ra + ((rb - rc) >> 1),
        6 => rb + ((ra - rc) >> 1),
        7 => (ra + rb) >> 1,
        _ => unreachable!(),
    }
}

/// Symbols of a lossless scan (no subsampling: MCU = one sample per component).
pub fn lossless_ops(img: &Img, scan: &Scan) -> Vec<Op> {
    let mut ops = vec![];
    let (w, h) = (img.w, img.h);
    let pt = scan.al;
    let mut first_line = 0usize; // line at which the current interval started
    for y in 0..h {
        for x in 0..w {
            let n = y * w + x;
            let mut start = n == 0;
            if scan.ri > 0 && n > 0 && n % scan.ri == 0 {
                ops.push(Op::Rst);
                start = true;
                first_line = y;
            }
            for (p, &c) in scan.comps.iter().enumerate() {
                let s = |xx: usize, yy: usize| (img.comps[c].samples[yy * w + xx] >> pt) as i32;
                let pr = if start {
                    1i32 << (img.prec - pt - 1)
                } else if y == first_line {
                    s(x - 1, y)
                } else if x == 0 {
                    s(x, y - 1)
                } else {
                    predict(scan.ss, s(x - 1, y), s(x, y - 1), s(x - 1, y - 1))
                };
                let mut d = (s(x, y) - pr) & 0xFFFF;
                if d > 32768 {
                    d -= 65536;
                }
                let cg = if d == 32768 { 16 } else { cat(d) };
                ops.push(Op::Sym(0, scan.td[p], cg));
                if cg > 0 && cg < 16 {
                    ops.push(Op::Bits(extra(d, cg), cg));
                }
            }
        }
    }
    ops
}

#[derive(Clone, Debug)]
pub struct HTable {
    pub class: u8,
    pub slot: u8,
    pub bits: [u8; 16],
    pub vals: Vec<u8>,
    /// symbol -> (code, length)
    pub map: Vec<Option<(u32, u8)>>,
}
impl HTable {
    /// lens: (symbol, length), must satisfy Kraft; canonical code assignment in (length, order).
    pub fn from_lens(class: u8, slot: u8, lens: &[(u8, u8)]) -> HTable {
        let mut l = lens.to_vec();
        l.sort_by_key(|x| x.1); // stable
        let mut bits = [0u8; 16];
        let mut vals = vec![];
        let mut map = vec![None; 256];
        let mut code = 0u32;
        let mut len = 0u8;
        for (s, n) in l {
            code <<= n - len;
            len = n;
            bits[n as usize - 1] += 1;
            vals.push(s);
            if map[s as usize].is_none() {
                map[s as usize] = Some((code, n));
            }
            code += 1;
        }
        HTable { class, slot, bits, vals, map }
    }
    pub fn from_bits(class: u8, slot: u8, bits: &[u8; 16], vals: &[u8]) -> HTable {
        let mut lens = vec![];
        let mut k = 0;
        for i in 0..16 {
            for _ in 0..bits[i] {
                lens.push((vals[k], i as u8 + 1));
                k += 1;
            }
        }
        HTable::from_lens(class, slot, &lens)
    }
    pub fn build(class: u8, slot: u8, symbols: &[u8], h: Huff) -> HTable {
        let n = symbols.len().max(1);
        let symbols: Vec<u8> = if symbols.is_empty() { vec![0] } else { symbols.to_vec() };
        match h {
            Huff::Std => std_table(class, slot),
            Huff::Flat => {
                let mut l = 1;
                while (1usize << l) - 1 < n {
                    l += 1;
                }
                // a length can hold at most 255 codes
                HTable::from_lens(class, slot, &symbols.iter().enumerate().map(|(i, &s)| (s, if i >= 255 { l as u8 + 1 } else { l as u8 })).collect::<Vec<_>>())
            }
            Huff::Skew => {
                let mut v = vec![];
                let rest = n.saturating_sub(8);
                let mut l = 1;
                while (1usize << l) - 1 < rest {
                    l += 1;
                }
                for (i, &s) in symbols.iter().enumerate() {
                    v.push((s, if i < 8 { i as u8 + 1 } else { 8 + l as u8 }));
                }
                HTable::from_lens(class, slot, &v)
            }
            Huff::Long => HTable::from_lens(class, slot, &symbols.iter().map(|&s| (s, 16)).collect::<Vec<_>>()),
        }
    }
}

pub const STD_DC_BITS: [[u8; 16]; 2] = [
    [0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0],
    [0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0],
];
pub const STD_AC_BITS: [[u8; 16]; 2] = [
    [0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d],
    [0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77],
];
// T.81 Tables K.5 and K.6, run/size values in order of increasing code length
#[rustfmt::skip]
pub const STD_AC_VALS: [[u8; 162]; 2] = [[
  0x01,0x02,0x03,0x00,0x04,0x11,0x05,0x12,0x21,0x31,0x41,0x06,0x13,0x51,0x61,0x07,0x22,0x71,0x14,0x32,0x81,0x91,0xa1,0x08,
  0x23,0x42,0xb1,0xc1,0x15,0x52,0xd1,0xf0,0x24,0x33,0x62,0x72,0x82,0x09,0x0a,0x16,0x17,0x18,0x19,0x1a,0x25,0x26,0x27,0x28,
  0x29,0x2a,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x53,0x54,0x55,0x56,0x57,0x58,0x59,
  0x5a,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x83,0x84,0x85,0x86,0x87,0x88,0x89,
  0x8a,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xb2,0xb3,0xb4,0xb5,0xb6,
  0xb7,0xb8,0xb9,0xba,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xe1,0xe2,
  0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa
],[
  0x00,0x01,0x02,0x03,0x11,0x04,0x05,0x21,0x31,0x06,0x12,0x41,0x51,0x07,0x61,0x71,0x13,0x22,0x32,0x81,0x08,0x14,0x42,0x91,
  0xa1,0xb1,0xc1,0x09,0x23,0x33,0x52,0xf0,0x15,0x62,0x72,0xd1,0x0a,0x16,0x24,0x34,0xe1,0x25,0xf1,0x17,0x18,0x19,0x1a,0x26,
  0x27,0x28,0x29,0x2a,0x35,0x36,0x37,0x38,0x39,0x3a,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x53,0x54,0x55,0x56,0x57,0x58,
  0x59,0x5a,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x82,0x83,0x84,0x85,0x86,0x87,
  0x88,0x89,0x8a,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xb2,0xb3,0xb4,
  0xb5,0xb6,0xb7,0xb8,0xb9,0xba,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,
  0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa
]];
pub fn std_table(class: u8, slot: u8) -> HTable {
    let k = (slot & 1) as usize;
    if class == 0 {
        let vals: Vec<u8> = (0..12).collect();
        HTable::from_bits(0, slot, &STD_DC_BITS[k], &vals)
    } else {
        HTable::from_bits(1, slot, &STD_AC_BITS[k], &STD_AC_VALS[k])
    }
}

#[derive(Clone, Debug, Default)]
pub struct Bw {
    pub out: Vec<u8>,
    acc: u32,
    n: u8,
}
impl Bw {
    pub fn put(&mut self, v: u32, n: u8) {
        for i in (0..n).rev() {
            self.acc = (self.acc << 1) | ((v >> i) & 1);
            self.n += 1;
            if self.n == 8 {
                self.byte();
            }
        }
    }
    fn byte(&mut self) {
        let b = self.acc as u8;
        self.out.push(b);
        if b == 0xFF {
            self.out.push(0);
        }
        self.acc = 0;
        self.n = 0;
    }
    pub fn flush(&mut self) {
        while self.n != 0 {
            self.put(1, 1);
        }
    }
    pub fn bitpos(&self) -> u8 {
        self.n
    }
}

/// Tables needed by an operation list (symbols in order of first use).
pub fn tables_for(ops: &[Op], h: Huff) -> Vec<HTable> {
    let mut seen: Vec<(u8, u8, Vec<u8>)> = vec![];
    for o in ops {
        if let Op::Sym(c, t, s) = *o {
            match seen.iter_mut().find(|x| x.0 == c && x.1 == t) {
                Some(e) => {
                    if !e.2.contains(&s) {
                        e.2.push(s)
                    }
                }
                None => seen.push((c, t, vec![s])),
            }
        }
    }
    seen.iter().map(|(c, t, s)| HTable::build(*c, *t, s, h)).collect()
}

/// Entropy-coded bytes of an operation list. `rst` maps the marker ordinal to the RST number.
pub fn emit(ops: &[Op], tables: &[HTable]) -> Vec<u8> {
    let mut idx: [[Option<&HTable>; 4]; 2] = [[None; 4]; 2];
    for t in tables {
        idx[t.class as usize][t.slot as usize] = Some(t);
    }
    let mut bw = Bw::default();
    let mut rst = 0u8;
    for o in ops {
        match *o {
            Op::Sym(c, t, s) => {
                let (code, n) = idx[c as usize][t as usize].expect("table").map[s as usize].expect("symbol in table");
                bw.put(code, n);
            }
            Op::Bits(v, n) => bw.put(v, n),
            Op::Rst => {
                bw.flush();
                bw.out.push(0xFF);
                bw.out.push(0xD0 + rst);
                rst = (rst + 1) % 8;
            }
        }
    }
    bw.flush();
    bw.out
}

// ---- segments -----------------------------------------------------------------------------------
pub fn seg(marker: u8, payload: &[u8]) -> Vec<u8> {
    let l = payload.len() + 2;
    assert!(l <= 65535);
    let mut v = vec![0xFF, marker, (l >> 8) as u8, l as u8];
    v.extend_from_slice(payload);
    v
}
pub const SOI: [u8; 2] = [0xFF, 0xD8];
pub const EOI: [u8; 2] = [0xFF, 0xD9];
/// table entries in zigzag order
pub fn dqt(slot: u8, pq: u8, t: &[u16; 64]) -> Vec<u8> {
    seg(0xDB, &dqt_body(slot, pq, t))
}
pub fn dqt_body(slot: u8, pq: u8, t: &[u16; 64]) -> Vec<u8> {
    let mut p = vec![pq << 4 | slot];
    for &x in t {
        if pq == 1 {
            p.push((x >> 8) as u8);
        }
        p.push(x as u8);
    }
    p
}
pub fn dht_body(t: &HTable) -> Vec<u8> {
    let mut p = vec![t.class << 4 | t.slot];
    p.extend_from_slice(&t.bits);
    p.extend_from_slice(&t.vals);
    p
}
pub fn dht(t: &HTable) -> Vec<u8> {
    seg(0xC4, &dht_body(t))
}
pub fn dri(n: usize) -> Vec<u8> {
    seg(0xDD, &[(n >> 8) as u8, n as u8])
}
pub fn sof_payload(img: &Img) -> Vec<u8> {
    let mut p = vec![img.prec, (img.h >> 8) as u8, img.h as u8, (img.w >> 8) as u8, img.w as u8, img.comps.len() as u8];
    for c in &img.comps {
        p.extend_from_slice(&[c.id, (c.h << 4 | c.v) as u8, c.tq]);
    }
    p
}
pub fn sof(img: &Img) -> Vec<u8> {
    seg(0xC0 + img.sof, &sof_payload(img))
}
pub fn sos_payload(img: &Img, s: &Scan) -> Vec<u8> {
    let mut p = vec![s.comps.len() as u8];
    for (i, &c) in s.comps.iter().enumerate() {
        p.extend_from_slice(&[img.comps[c].id, s.td[i] << 4 | s.ta[i]]);
    }
    p.extend_from_slice(&[s.ss, s.se, s.ah << 4 | s.al]);
    p
}
pub fn sos(img: &Img, s: &Scan) -> Vec<u8> {
    seg(0xDA, &sos_payload(img, s))
}
pub fn ops_for(img: &Img, s: &Scan) -> Vec<Op> {
    if img.sof == 3 {
        lossless_ops(img, s)
    } else {
        scan_ops(img, s)
    }
}
/// DHT (if the scan codes symbols), DRI (if it differs from `ri`), SOS and data of one scan.
pub fn scan_segments(img: &Img, s: &Scan, ri: &mut usize) -> Vec<Vec<u8>> {
    let ops = ops_for(img, s);
    let tabs = tables_for(&ops, s.huff);
    let mut v: Vec<Vec<u8>> = tabs.iter().map(dht).collect();
    // the decoder requires the AC table to exist for any AC scan, and DC for any DC scan; scans
    // always use at least one symbol, except DC refinement
    if *ri != s.ri {
        v.push(dri(s.ri));
        *ri = s.ri;
    }
    let mut sosd = sos(img, s);
    sosd.extend_from_slice(&emit(&ops, &tabs));
    v.push(sosd);
    v
}
pub type Qts = [[u16; 64]; 4];
pub fn q_flat(n: u16) -> Qts {
    [[n; 64]; 4]
}
/// A complete stream as a list of segments (SOI, DQT.., SOF, {DHT.., DRI, SOS+data}.., EOI).
pub fn segments(img: &Img, q: &Qts, scans: &[Scan]) -> Vec<Vec<u8>> {
    let mut v = vec![SOI.to_vec()];
    if img.sof != 3 {
        let mut used: Vec<u8> = img.comps.iter().map(|c| c.tq).collect();
        used.sort();
        used.dedup();
        for t in used {
            let pq = q[t as usize].iter().any(|&x| x > 255) as u8;
            v.push(dqt(t, pq, &q[t as usize]));
        }
    }
    v.push(sof(img));
    let mut ri = 0;
    for s in scans {
        v.extend(scan_segments(img, s, &mut ri));
    }
    v.push(EOI.to_vec());
    v
}
pub fn stream(img: &Img, q: &Qts, scans: &[Scan]) -> Vec<u8> {
    segments(img, q, scans).concat()
}

/// Fill every block (padding blocks too) with contents distinct per (component, block).
pub fn fill_blocks(img: &mut Img, f: impl Fn(usize, usize, usize) -> Block) {
    for (ci, c) in img.comps.iter_mut().enumerate() {
        let pw = c.pw;
        for (i, b) in c.blocks.iter_mut().enumerate() {
            *b = f(ci, i % pw, i / pw);
        }
    }
}
