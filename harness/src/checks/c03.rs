use super::bases::*;
use super::*;
use std::io::{Error, ErrorKind, Read};
use std::sync::Arc;

/// Reader whose answer to each read call is chosen by the explorer.
struct Choosy<'a, 'b> {
    d: &'a [u8],
    pos: usize,
    ctx: &'b mut Ctx,
    eof: u32,
}
impl Read for Choosy<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.d.len() - self.pos);
        // default: everything available; deviations: Interrupted, or a short read of various lengths
        let mut lens = vec![n];
        if n > 1 {
            lens.extend([1, n - 1, n / 2]);
            lens.dedup();
        }
        let c = self.ctx.dev(lens.len() + 1);
        if c == lens.len() {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let n = lens[c];
        if n == 0 && !buf.is_empty() {
            self.eof += 1;
            if self.eof > 10_000 {
                panic!("runaway reads after end of stream");
            }
        }
        buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Fixed delivery pattern: chunk lengths repeat; 0 stands for Interrupted.
struct Pattern<'a> {
    d: &'a [u8],
    pos: usize,
    pat: &'a [usize],
    k: usize,
    eof: u32,
}
impl Read for Pattern<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let p = self.pat[self.k % self.pat.len()];
        self.k += 1;
        if p == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let n = buf.len().min(self.d.len() - self.pos).min(p);
        if n == 0 && !buf.is_empty() {
            self.eof += 1;
            if self.eof > 10_000 {
                panic!("runaway reads after end of stream");
            }
        }
        buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn hist(k: usize) -> Vec<Act> {
    match k {
        0 => vec![Act::Decode, Act::Meta],
        1 => vec![Act::ReadInfo, Act::Meta],
        _ => vec![Act::Scale(3, 3), Act::Decode, Act::Meta],
    }
}
fn same(v: V, what: &str, a: &[Res], b: &[Res]) -> R {
    if let Some(Res::Panic(m)) = a.last() {
        return fail("panic", format!("{v:?} {what}: panic {m}"));
    }
    if a == b {
        return Ok(());
    }
    let brief = |r: &[Res]| {
        r.iter()
            .map(|x| match x {
                Res::Data(Ok(d)) => format!("Data({} bytes)", d.len()),
                Res::Meta(m) => format!("Meta({:?}, exif {:?}, xmp {:?}, icc {:?})", m.info, m.exif.as_ref().map(|x| x.len()), m.xmp.as_ref().map(|x| x.len()), m.icc.as_ref().map(|x| x.len())),
                x => format!("{x:?}"),
            })
            .collect::<Vec<_>>()
            .join(", ")
    };
    fail("delivery", format!("{v:?} {what}: delivered in pieces gives [{}], delivered at once gives [{}]", brief(a), brief(b)))
}

/// A stream whose segments hold long payloads (multi-byte reads everywhere).
fn meaty() -> Base {
    let mut b = bases().remove(2);
    let big: Vec<u8> = (0..300usize).map(|i| (i * 7) as u8).collect();
    let extra = vec![app(0, JFIF), app(1, b"nothing"), app(2, b"ICC_PROFILX\0\x01\x01abc"), app(3, &big), app(13, b"Photoshop 3.1\0abc"), app(14, b"Adobe"), adobe(1), com(&big), app(15, b"")];
    b.segs = with_head(b.segs, extra);
    b.bytes = b.segs.concat();
    b.name = "meaty";
    b
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut bs = all_bases();
    bs.push(meaty());
    let bs = Arc::new(bs);
    let refs: Arc<Vec<Vec<Vec<Vec<Res>>>>> = Arc::new(
        bs.iter().map(|b| ALLV.iter().map(|&v| (0..3).map(|k| session(v, &mut SliceReader::new(&b.bytes), &hist(k))).collect()).collect()).collect(),
    );
    let mut models = vec![];
    {
        let (bs, refs) = (bs.clone(), refs.clone());
        models.push(model_b("one deviation at any read call", 1, move |ctx| {
            let i = ctx.choose(bs.len());
            let vi = ctx.choose(3);
            let k = ctx.choose(3);
            let b = &bs[i];
            ctx.stream(&b.bytes);
            ctx.describe(|| format!("{} {:?} history {k}", b.name, ALLV[vi]));
            ctx.trace();
            let mut rd = Choosy { d: &b.bytes, pos: 0, ctx, eof: 0 };
            let r = session(ALLV[vi], &mut rd, &hist(k));
            let (pos, used) = (rd.pos, r.len());
            ctx.outcome((i, vi, k, used, pos));
            same(ALLV[vi], b.name, &r, &refs[i][vi][k])
        }));
    }
    {
        // two deviations on the streams with the most varied reads
        let (bs, refs) = (bs.clone(), refs.clone());
        let pickd: Vec<usize> = if th { (0..bs.len()).filter(|&i| bs[i].bytes.len() < 900).collect() } else { (0..bs.len()).filter(|&i| bs[i].bytes.len() < 330).chain([2]).collect() };
        models.push(model_b("every pair of deviations", 2, move |ctx| {
            let i = ctx.pick(&pickd);
            let k = if ctx.thorough() { ctx.choose(2) } else { 0 };
            let b = &bs[i];
            ctx.stream(&b.bytes);
            ctx.describe(|| format!("{} history {k}", b.name));
            ctx.trace();
            let mut rd = Choosy { d: &b.bytes, pos: 0, ctx, eof: 0 };
            let r = session(V::Rayon, &mut rd, &hist(k));
            let pos = rd.pos;
            ctx.outcome((i, k, pos));
            same(V::Rayon, b.name, &r, &refs[i][0][k])
        }));
    }
    {
        let (bs, refs) = (bs.clone(), refs.clone());
        models.push(model("repeating delivery patterns", move |ctx| {
            let i = ctx.choose(bs.len());
            let n = ctx.range(1, if ctx.thorough() { 5 } else { 3 });
            let pat: Vec<usize> = (0..n).map(|_| ctx.pick(&[0usize, 1, 2, 3, 5, 7, 64])).collect();
            if pat.iter().all(|&x| x == 0) {
                return Ok(());
            }
            let vi = ctx.choose(3);
            let k = ctx.choose(3);
            ctx.state((i, &pat, vi, k));
            ctx.stream(&bs[i].bytes);
            ctx.trace();
            ctx.describe(|| format!("{} pattern {pat:?}", bs[i].name));
            let mut rd = Pattern { d: &bs[i].bytes, pos: 0, pat: &pat, k: 0, eof: 0 };
            let r = session(ALLV[vi], &mut rd, &hist(k));
            same(ALLV[vi], &format!("{} pattern {pat:?}", bs[i].name), &r, &refs[i][vi][k])
        }));
    }
    {
        // broken streams: same error whatever the delivery
        let bs = bs.clone();
        models.push(model("broken streams x delivery patterns", move |ctx| {
            let b = &bs[ctx.choose(bs.len())];
            let mut m = b.bytes.clone();
            let kind = ctx.choose(3);
            let i = ctx.choose(b.bytes.len());
            match kind {
                0 => m.truncate(i),
                1 => m[i] ^= 0xFF,
                _ => m[i] = m[i].wrapping_add(1),
            }
            if super::c01::area(&m) > 1 << 18 {
                ctx.count("skipped_huge", 1);
                return Ok(());
            }
            let pat: &[usize] = ctx.pick(&[&[1usize][..], &[0, 1], &[3, 0, 2], &[0, 0, 0, 7]]);
            let k = if ctx.thorough() { ctx.choose(3) } else { 0 };
            ctx.state((b.name, kind, i, pat, k));
            ctx.stream(&m);
            ctx.trace();
            ctx.describe(|| format!("{} mutation {kind} at {i} pattern {pat:?}", b.name));
            let want = session(V::Rayon, &mut SliceReader::new(&m), &hist(k));
            let mut rd = Pattern { d: &m, pos: 0, pat, k: 0, eof: 0 };
            let got = session(V::Rayon, &mut rd, &hist(k));
            ctx.outcome(&got);
            if let (Some(Res::Panic(_)), Some(Res::Panic(_))) = (want.last(), got.last()) {
                return Ok(()); // C01's business
            }
            same(V::Rayon, &format!("{} mutation {kind} at {i} pattern {pat:?}", b.name), &got, &want)
        }));
    }
    super::spec(
        "per read call: full, 1, n-1, n/2 bytes or Interrupted; up to 2 deviations at any calls; all repeating patterns of up to 3 (thorough 5) answers; 21 streams, truncations and two byte changes at every position",
        &["the reader follows the std::io::Read contract"],
        models,
    )
}
