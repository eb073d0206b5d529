//! Small valid streams covering every coding process and feature; shared by several checks.
use super::*;

#[derive(Clone)]
pub struct Base {
    pub name: &'static str,
    pub segs: Vec<Vec<u8>>,
    pub bytes: Vec<u8>,
    pub img: Img,
    /// offset just after the frame header
    pub sof_end: usize,
}
impl Base {
    /// offset of the first byte of the entropy-coded data of the first scan
    pub fn first_scan_data(&self) -> usize {
        let mut off = 0;
        for s in &self.segs {
            if s.len() > 2 && s[1] == 0xDA {
                return off + 2 + ((s[2] as usize) << 8 | s[3] as usize);
            }
            off += s.len();
        }
        off
    }
}
pub fn mk(name: &'static str, img: Img, segs: Vec<Vec<u8>>) -> Base {
    let mut off = 0;
    let mut sof_end = 0;
    for s in &segs {
        off += s.len();
        if s.len() > 4 && (0xC0..=0xCF).contains(&s[1]) && s[1] != 0xC4 && s[1] != 0xC8 && s[1] != 0xCC {
            sof_end = off;
        }
    }
    Base { name, bytes: segs.concat(), segs, img, sof_end }
}
pub fn qt(seed: u16) -> [u16; 64] {
    let mut q = [0; 64];
    for (k, x) in q.iter_mut().enumerate() {
        *x = 5 + seed + (k as u16 * 3) % 7;
    }
    q
}
pub fn qts() -> Qts {
    [qt(0), qt(3), qt(6), qt(9)]
}
pub fn dct(sof: u8, w: usize, h: usize, f: &[(usize, usize)], seed: u64) -> Img {
    let mut img = Img::new(sof, w, h, f);
    for (i, c) in img.comps.iter_mut().enumerate() {
        c.tq = (i as u8).min(1);
    }
    fill_blocks(&mut img, |c, x, y| busy_block(seed, c, x, y));
    img
}
pub fn lossless(prec: u8, w: usize, h: usize, n: usize, seed: u64) -> Img {
    let mut img = Img::new(3, w, h, &vec![(1, 1); n]);
    img.prec = prec;
    for (c, k) in img.comps.iter_mut().enumerate() {
        for (i, s) in k.samples.iter_mut().enumerate() {
            *s = (mix(seed, c as u64, i as u64) & ((1u64 << prec) - 1)) as u16;
        }
    }
    img
}
pub fn prog_script_gray() -> Vec<Scan> {
    vec![Scan::prog(&[0], 0, 0, 0, 1), Scan::prog(&[0], 1, 5, 0, 2), Scan::prog(&[0], 6, 63, 0, 1), Scan::prog(&[0], 0, 0, 1, 0), Scan::prog(&[0], 1, 5, 2, 1), Scan::prog(&[0], 6, 63, 1, 0), Scan::prog(&[0], 1, 5, 1, 0)]
}
pub fn prog_script_colour() -> Vec<Scan> {
    let mut v = vec![Scan::prog(&[0, 1, 2], 0, 0, 0, 1)];
    for c in 0..3 {
        v.push(Scan::prog(&[c], 1, 63, 0, 1));
    }
    v.push(Scan::prog(&[0, 1, 2], 0, 0, 1, 0));
    for c in 0..3 {
        v.push(Scan::prog(&[c], 1, 63, 1, 0));
    }
    v
}
pub fn app(n: u8, p: &[u8]) -> Vec<u8> {
    seg(0xE0 + n, p)
}
pub const JFIF: &[u8] = b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0";
pub fn adobe(t: u8) -> Vec<u8> {
    let mut p = b"Adobe\0\x64\0\0\0\0".to_vec();
    p.push(t);
    app(14, &p)
}
pub fn icc(seq: u8, n: u8, data: &[u8]) -> Vec<u8> {
    let mut p = b"ICC_PROFILE\0".to_vec();
    p.push(seq);
    p.push(n);
    p.extend_from_slice(data);
    app(2, &p)
}
pub fn exif(data: &[u8]) -> Vec<u8> {
    let mut p = b"Exif\0\0".to_vec();
    p.extend_from_slice(data);
    app(1, &p)
}
pub const XMPSIG: &[u8] = b"http://ns.adobe.com/xap/1.0/\0";
pub fn xmp(data: &[u8]) -> Vec<u8> {
    let mut p = XMPSIG.to_vec();
    p.extend_from_slice(data);
    app(1, &p)
}
pub fn com(data: &[u8]) -> Vec<u8> {
    seg(0xFE, data)
}

/// Insert extra segments after SOI.
pub fn with_head(mut segs: Vec<Vec<u8>>, head: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    segs.splice(1..1, head);
    segs
}

pub fn bases() -> Vec<Base> {
    let q = qts();
    let mut v = vec![];
    let mut add = |n, img: Img, scans: Vec<Scan>, head: Vec<Vec<u8>>| {
        let s = with_head(segments(&img, &q, &scans), head);
        v.push(mk(n, img, s));
    };
    add("baseline gray 13x10", dct(0, 13, 10, &[(1, 1)], 1), vec![Scan::seq(&[0]).huff(Huff::Skew)], vec![]);
    add("baseline 4:2:0 21x18 interleaved, JFIF, restarts", dct(0, 21, 18, &[(2, 2), (1, 1), (1, 1)], 2), vec![Scan::seq(&[0, 1, 2]).ri(1)], vec![app(0, JFIF)]);
    add("baseline 4:2:2 17x9, three scans, metadata", dct(0, 17, 9, &[(2, 1), (1, 1), (1, 1)], 3), vec![Scan::seq(&[0]), Scan::seq(&[2]), Scan::seq(&[1])], vec![exif(b"MM\0*abcd"), icc(1, 1, b"profile"), xmp(b"<x/>"), com(b"hello\xff\xd9"), app(13, b"Photoshop 3.0\0abcdef")]);
    add("extended 9x9 RGB, long codes", dct(1, 9, 9, &[(1, 1), (1, 1), (1, 1)], 4), vec![Scan::seq(&[0, 1, 2]).huff(Huff::Long)], vec![adobe(0)]);
    add("baseline CMYK 12x9", dct(0, 12, 9, &[(1, 1); 4], 5), vec![Scan::seq(&[0, 1, 2, 3])], vec![]);
    add("baseline YCCK 4:2:0 17x9", dct(0, 17, 9, &[(2, 2), (1, 1), (1, 1), (2, 2)], 6), vec![Scan::seq(&[0, 1, 2, 3])], vec![adobe(2)]);
    add("progressive gray 18x9, bands and refinement", dct(2, 18, 9, &[(1, 1)], 7), prog_script_gray(), vec![]);
    add("progressive 4:2:0 17x17, restarts", dct(2, 17, 17, &[(2, 2), (1, 1), (1, 1)], 8), prog_script_colour().into_iter().map(|s| s.ri(2)).collect(), vec![app(0, JFIF)]);
    add("progressive, two scans only", dct(2, 9, 9, &[(1, 1), (1, 1), (1, 1)], 9), vec![Scan::prog(&[0, 1, 2], 0, 0, 0, 0), Scan::prog(&[0], 1, 20, 0, 0)], vec![]);
    add("lossless gray 8 bit 5x4 predictor 1", lossless(8, 5, 4, 1, 1), vec![Scan::lossless(&[0], 1, 0)], vec![]);
    add("lossless gray 16 bit 5x4 predictor 7", lossless(16, 5, 4, 1, 2), vec![Scan::lossless(&[0], 7, 0)], vec![]);
    add("lossless gray 12 bit 4x4 predictor 4 restarts", lossless(12, 4, 4, 1, 3), vec![Scan::lossless(&[0], 4, 0).ri(4)], vec![]);
    add("lossless RGB 8 bit 4x3 interleaved predictor 6", lossless(8, 4, 3, 3, 4), vec![Scan::lossless(&[0, 1, 2], 6, 0)], vec![]);
    {
        // motion JPEG without Huffman tables
        let img = dct(0, 17, 9, &[(2, 1), (1, 1), (1, 1)], 10);
        let mut s = Scan::seq(&[0, 1, 2]).huff(Huff::Std);
        s.td = vec![0, 1, 1];
        s.ta = vec![0, 1, 1];
        let mut segs: Vec<Vec<u8>> = segments(&img, &q, &[s]).into_iter().filter(|s| s[1] != 0xC4).collect();
        segs.insert(1, app(0, b"AVI1\0\0\0\0"));
        v.push(mk("AVI1 without tables 17x9", img, segs));
    }
    v
}
/// Streams wide enough for the parallel workers.
pub fn wide_bases() -> Vec<Base> {
    let q = qts();
    let mut v = vec![];
    let mut add = |n, img: Img, scans: Vec<Scan>| {
        let s = segments(&img, &q, &scans);
        v.push(mk(n, img, s));
    };
    add("wide gray 137x17", dct(0, 137, 17, &[(1, 1)], 21), vec![Scan::seq(&[0]).ri(5)]);
    add("wide 4:2:0 150x33", dct(0, 150, 33, &[(2, 2), (1, 1), (1, 1)], 22), vec![Scan::seq(&[0, 1, 2])]);
    add("wide separate scans 130x20", dct(0, 130, 20, &[(1, 2), (1, 1), (1, 1)], 23), vec![Scan::seq(&[1]), Scan::seq(&[0]), Scan::seq(&[2])]);
    add("wide progressive 144x18", dct(2, 144, 18, &[(2, 1), (1, 1), (1, 1)], 24), prog_script_colour());
    add("wide progressive unfinished 131x19", dct(2, 131, 19, &[(1, 1), (1, 1), (1, 1)], 25), vec![Scan::prog(&[0, 1, 2], 0, 0, 0, 0), Scan::prog(&[1], 1, 63, 0, 0)]);
    add("wide CMYK 129x9", dct(0, 129, 9, &[(1, 1); 4], 26), vec![Scan::seq(&[0, 1, 2, 3])]);
    v
}
pub fn all_bases() -> Vec<Base> {
    let mut v = bases();
    v.extend(wide_bases());
    v
}
/// Block contents that make every block of an image recognisable: distinct DC, a few AC terms.
pub fn busy_block(seed: u64, c: usize, x: usize, y: usize) -> Block {
    let r = mix(seed * 31 + c as u64, x as u64 + 1, y as u64 + 77);
    let mut b = [0i16; 64];
    b[0] = (r % 161) as i16 - 80;
    for i in 0..3u64 {
        let r2 = mix(r, i, 5);
        let k = 1 + (r2 % 63) as usize;
        b[k] = ((r2 >> 8) % 41) as i16 - 20;
    }
    b
}
