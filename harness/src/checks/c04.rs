use super::bases::*;
use super::*;
use std::io::{Error, ErrorKind, Read};
use std::sync::Arc;

pub struct Fault<'a> {
    d: &'a [u8],
    pos: usize,
    at: usize,
    kind: ErrorKind,
    msg: String,
    permanent: bool,
    fired: bool,
    polls: u32,
}
impl Read for Fault<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.polls += 1;
        if self.polls > 1_000_000 {
            panic!("runaway reads");
        }
        let mut end = self.d.len();
        if self.permanent || !self.fired {
            if self.pos == self.at {
                self.fired = true;
                return Err(Error::new(self.kind, self.msg.clone()));
            }
            if self.pos < self.at {
                end = end.min(self.at);
            }
        }
        let n = buf.len().min(end - self.pos);
        buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

const KINDS: [ErrorKind; 5] = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe];

fn check_err(v: V, what: &str, r: &Res, kind: &str, msg: Option<&str>) -> R {
    let e = match r {
        Res::Unit(Err(e)) | Res::Dims(Err(e)) | Res::Data(Err(e)) => e,
        Res::Panic(m) => return fail("panic", format!("{v:?} {what}: panic {m}")),
        Res::Data(Ok(d)) => return fail("swallowed", format!("{v:?} {what}: decode returned {} bytes of pixels", d.len())),
        r => return fail("swallowed", format!("{v:?} {what}: returned {r:?}")),
    };
    match e {
        E::Io(k, m) => {
            ensure!(k == kind, "kind", "{v:?} {what}: returned {e:?}");
            if let Some(x) = msg {
                ensure!(m == x, "message", "{v:?} {what}: returned {e:?}, not the reader's error");
            }
            Ok(())
        }
        _ => fail("other-error", format!("{v:?} {what}: returned {e:?}")),
    }
}

/// Variants of the base streams with more places to fail: trailing RST, stray bytes, fill bytes.
pub fn extra_bases() -> Vec<Base> {
    let mut v = vec![];
    let b = bases();
    let mut with = |name: &'static str, i: usize, ins: &[u8]| {
        let mut x = b[i].clone();
        let n = x.segs.len() - 1;
        x.segs.insert(n, ins.to_vec());
        x.bytes = x.segs.concat();
        x.name = name;
        v.push(x);
    };
    with("trailing RST and fill bytes", 0, &[0xFF, 0xD0, 0xFF]);
    with("trailing RSTs", 0, &[0xFF, 0xD3, 0xFF, 0xD4, 0xFF, 0xD5]);
    with("trailing RST, progressive", 6, &[0xFF, 0xD0]);
    with("trailing RST, lossless", 9, &[0xFF, 0xD0, 1, 2, 0xFF, 0xD7]);
    with("trailing RST, lossless 16 bit", 10, &[0xFF, 0xD7]);
    with("trailing stray bytes", 3, &[0xFF, 0xFE, 0, 4, 1, 2, 9, 8, 7, 0xFF, 0, 0xFF, 0xFF]);
    v
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut bs = all_bases();
    bs.extend(extra_bases());
    let bs = Arc::new(bs);
    let mut models = vec![];
    {
        let b = bs.clone();
        models.push(model("sanity: every stream is valid", move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let v = ctx.pick(&ALLV);
            ctx.state((base.name, v));
            let o = dec(ctx, v, &base.bytes, &Opts::default());
            must(&o, base.name)?;
            ensure!(o.consumed == base.bytes.len(), "consumed", "{}: consumed {} of {}", base.name, o.consumed, base.bytes.len());
            Ok(())
        }));
    }
    {
        let b = bs.clone();
        models.push(model("reader error at every offset", move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let at = ctx.choose(base.bytes.len() + 1);
            let permanent = ctx.flag();
            let kind = ctx.pick(if ctx.thorough() { &KINDS[..] } else { &KINDS[..3] });
            let v = if ctx.thorough() { ctx.pick(&ALLV) } else { ctx.pick(&[V::Rayon, V::Mpsc]) };
            let h = ctx.choose(3);
            let acts = match h {
                0 => vec![Act::Decode],
                1 => vec![Act::ReadInfo, Act::Meta, Act::Decode],
                _ => vec![Act::Scale(2, 2), Act::Decode],
            };
            ctx.state((base.name, at, permanent, format!("{kind:?}"), v, h));
            let msg = format!("injected at {at}");
            ctx.stream(&base.bytes);
            ctx.trace();
            let mut rd = Fault { d: &base.bytes, pos: 0, at, kind, msg: msg.clone(), permanent, fired: false, polls: 0 };
            let what = format!("{} ({} bytes), {kind:?} {} at byte {at}, history {h}", base.name, base.bytes.len(), if permanent { "from then on" } else { "once" });
            ctx.describe(|| what.clone());
            let rs = session(v, &mut rd, &acts);
            let kn = format!("{kind:?}");
            let inhead = at < base.sof_end;
            for (a, r) in acts.iter().zip(&rs) {
                match a {
                    Act::ReadInfo | Act::Scale(..) => {
                        if inhead {
                            return check_err(v, &what, r, &kn, Some(&msg));
                        }
                        ensure!(matches!(r, Res::Unit(Ok(())) | Res::Dims(Ok(_))), "early", "{v:?} {what}: reading metadata returned {r:?} although the fault lies behind the frame header");
                    }
                    Act::Decode => {
                        if at < base.bytes.len() {
                            check_err(v, &what, r, &kn, Some(&msg))?;
                        } else {
                            ensure!(matches!(r, Res::Data(Ok(_))), "late", "{v:?} {what}: decode returned {r:?}, although the fault lies behind the image");
                        }
                    }
                    _ => {}
                }
            }
            ensure!(rs.len() == acts.len(), "panic", "{v:?} {what}: {:?}", rs.last());
            Ok(())
        }));
    }
    {
        let b = bs.clone();
        models.push(model("truncation at every offset", move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let at = ctx.choose(base.bytes.len());
            let v = ctx.pick(&ALLV);
            let h = ctx.choose(3);
            let acts = match h {
                0 => vec![Act::Decode],
                1 => vec![Act::ReadInfo, Act::Decode],
                _ => vec![Act::Scale(2, 2), Act::Decode],
            };
            ctx.state((base.name, at, v, h));
            ctx.stream(&base.bytes[..at]);
            ctx.trace();
            let what = format!("{} cut to {at} of {} bytes, history {h}", base.name, base.bytes.len());
            ctx.describe(|| what.clone());
            let rs = session(v, &mut SliceReader::new(&base.bytes[..at]), &acts);
            if h > 0 && at >= base.sof_end {
                ensure!(matches!(rs[0], Res::Unit(Ok(())) | Res::Dims(Ok(_))), "early", "{v:?} {what}: reading metadata returned {:?}", rs[0]);
                return check_err(v, &what, &rs[rs.len() - 1], "UnexpectedEof", None);
            }
            check_err(v, &what, &rs[0], "UnexpectedEof", None)
        }));
    }
    {
        // streams whose last bytes vary in bit alignment and length
        models.push(model("truncation of short gray scans of every length", move |ctx| {
            let nz = ctx.range(0, if ctx.thorough() { 63 } else { 40 });
            let mag = ctx.pick(&[1i16, 5, 100]);
            let sofn = ctx.pick(&[0u8, 2, 3]);
            let ri = ctx.pick(&[0usize, 1]);
            let (img, scans) = if sofn == 3 {
                let img = lossless(8, 1 + nz % 9, 1 + nz / 9, 1, mag as u64);
                let w = img.w;
                (img, vec![Scan::lossless(&[0], 1, 0).ri(ri * w)])
            } else {
                let mut img = Img::new(sofn, 16, 8, &[(1, 1)]);
                for b in 0..2 {
                    for k in 0..nz {
                        img.comps[0].blocks[b][k + 1 - (b & 1).min(k + 1)] = mag;
                    }
                }
                (img, if sofn == 0 { vec![Scan::seq(&[0]).ri(ri)] } else { vec![Scan::prog(&[0], 0, 0, 0, 0).ri(ri), Scan::prog(&[0], 1, 63, 0, 0).ri(ri)] })
            };
            let bytes = stream(&img, &qts(), &scans);
            let trail = ctx.choose(2);
            let bytes = if trail == 1 {
                let mut b = bytes;
                let n = b.len();
                b.splice(n - 2..n - 2, [0xFF, 0xD5]);
                b
            } else {
                bytes
            };
            ctx.state(&bytes);
            ctx.describe(|| format!("sof{sofn} {nz} coefficients of {mag}, ri {ri}, trailing RST {trail}"));
            let lo = bytes.len().saturating_sub(80).max(20);
            for at in lo..bytes.len() {
                ctx.stream(&bytes[..at]);
                ctx.trace();
                let rs = session(V::Rayon, &mut SliceReader::new(&bytes[..at]), &[Act::Decode]);
                check_err(V::Rayon, &format!("sof{sofn} {nz} coefficients cut to {at} of {}", bytes.len()), &rs[0], "UnexpectedEof", None)?;
                let mut rd = Fault { d: &bytes, pos: 0, at, kind: ErrorKind::Other, msg: "x".into(), permanent: false, fired: false, polls: 0 };
                let rs = session(V::Rayon, &mut rd, &[Act::Decode]);
                check_err(V::Rayon, &format!("sof{sofn} {nz} coefficients, one error at {at} of {}", bytes.len()), &rs[0], "Other", Some("x"))?;
            }
            Ok(())
        }));
    }
    let _ = th;
    super::spec(
        "every offset of 26 valid streams x {one-shot, permanent} x error kinds x 3 histories x variants; truncation at every offset; short scans of every data length",
        &["ErrorKind::Interrupted is retried, not surfaced (C03)"],
        models,
    )
}
