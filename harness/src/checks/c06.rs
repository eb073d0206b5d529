use super::bases::*;
use super::*;
use std::sync::Arc;

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let all = all_bases();
    let mut sel: Vec<Base> = vec![];
    for n in ["baseline 4:2:0 21x18", "baseline gray", "progressive 4:2:0", "lossless gray 16 bit 5x4", "baseline YCCK", "progressive, two scans"] {
        sel.push(all.iter().find(|b| b.name.starts_with(n)).unwrap().clone());
    }
    // a stream that fails after the frame header
    let mut broken = sel[0].clone();
    broken.name = "baseline 4:2:0, cut";
    let n = broken.bytes.len() - 20;
    broken.bytes.truncate(n);
    sel.push(broken);
    if th {
        sel.push(all.iter().find(|b| b.name.starts_with("wide 4:2:0")).unwrap().clone());
        sel.push(all.iter().find(|b| b.name.starts_with("baseline 4:2:2 17x9")).unwrap().clone());
        sel.push(all.iter().find(|b| b.name.starts_with("baseline CMYK")).unwrap().clone());
    }
    let sel = Arc::new(sel);
    let depth = if th { 6 } else { 5 };
    let mut models = vec![];
    models.push(model("every option history", move |ctx| {
        let b = &sel[ctx.choose(sel.len())];
        let (w, h) = (b.img.w as u16, b.img.h as u16);
        let alphabet = [
            Act::ReadInfo,
            Act::Scale(1, 1),
            Act::Scale(w.div_ceil(2), h.div_ceil(2)),
            Act::Scale(w.div_ceil(4), 1),
            Act::Scale(65535, 65535),
            Act::SetCt(Ct::None),
            Act::SetCt(Ct::Rgb),
            Act::SetLimit(0),
            Act::SetLimit(200),
            Act::SetLimit(usize::MAX),
            Act::Meta,
        ];
        let mut acts = vec![];
        for _ in 0..depth {
            let k = ctx.choose(alphabet.len() + 1);
            if k == 0 {
                break;
            }
            acts.push(alphabet[k - 1].clone());
        }
        let v = if ctx.thorough() { ctx.pick(&[V::Rayon, V::Mpsc]) } else { V::Rayon };
        // abstract state: what a fresh decoder would be told
        let mut scale: Option<(u16, u16)> = None;
        let (mut ct, mut limit, mut read) = (None, None, false);
        let fresh = |scale: Option<(u16, u16)>, tail: &[Act]| {
            let mut f = vec![];
            if let Some((a, b)) = scale {
                f.push(Act::Scale(a, b));
            }
            f.extend_from_slice(tail);
            session(v, &mut SliceReader::new(&b.bytes), &f)
        };
        let n = acts.len();
        acts.extend([Act::Decode, Act::Meta, Act::ReadInfo, Act::Meta]);
        ctx.stream(&b.bytes);
        ctx.describe(|| format!("{} {v:?} {acts:?}", b.name));
        ctx.trace();
        let rs = session(v, &mut SliceReader::new(&b.bytes), &acts);
        ensure!(rs.len() == acts.len(), "panic", "{v:?} {} {acts:?}: {:?}", b.name, rs.last());
        for (a, r) in acts[..n].iter().zip(&rs) {
            match a {
                Act::ReadInfo => {
                    read = true;
                    ensure!(*r == Res::Unit(Ok(())), "read_info", "{} {acts:?}: {r:?}", b.name);
                }
                Act::Scale(x, y) => {
                    read = true;
                    scale = Some((*x, *y));
                    let want = fresh(scale, &[]);
                    ensure!(*r == want[0], "scale-return", "{} {acts:?}: {a:?} returned {r:?}, on a fresh decoder {:?}", b.name, want[0]);
                }
                Act::SetCt(c) => ct = Some(*c),
                Act::SetLimit(l) => limit = Some(*l),
                Act::Meta => {
                    if let Res::Meta(m) = r {
                        let want = if read { fresh(scale, &[Act::ReadInfo, Act::Meta]).pop() } else { Some(Res::Meta(Meta::default())) };
                        let Some(Res::Meta(want)) = want else { unreachable!() };
                        ensure!(m.info == want.info, "info", "{} {acts:?}: info {:?}, expected {:?}", b.name, m.info, want.info);
                    }
                }
                _ => {}
            }
            ctx.state((b.name, scale, ct, limit, read));
        }
        let mut f = vec![];
        if let Some(c) = ct {
            f.push(Act::SetCt(c));
        }
        if let Some(l) = limit {
            f.push(Act::SetLimit(l));
        }
        if let Some((x, y)) = scale {
            f.push(Act::Scale(x, y));
        }
        f.extend([Act::Decode, Act::Meta]);
        let want = session(v, &mut SliceReader::new(&b.bytes), &f);
        let k = want.len() - 2;
        ctx.outcome(&want[k]);
        ensure!(rs[n] == want[k], "decode", "{v:?} {} {acts:?}: decode differs from {f:?}: {} instead of {}", b.name, short(&rs[n]), short(&want[k]));
        if matches!(rs[n], Res::Data(Ok(_))) {
            ensure!(rs[n + 1] == want[k + 1], "meta", "{v:?} {} {acts:?}: metadata differs from {f:?}: {:?} / {:?}", b.name, rs[n + 1], want[k + 1]);
            ensure!(rs[n + 2] == Res::Unit(Ok(())) && rs[n + 3] == rs[n + 1], "after", "{v:?} {} {acts:?}: metadata read after decoding: {:?} {:?}", b.name, rs[n + 2], rs[n + 3]);
        }
        Ok(())
    }));
    super::spec("all histories of up to 5 (thorough 6) calls over {read_info, scale x4, colour override x2, limit x3, accessors} on 7 (thorough 10) streams, then decode, accessors, read_info, accessors", &["histories in which no call has failed (a failed metadata read leaves the reader inside the stream)"], models)
}
fn short(r: &Res) -> String {
    match r {
        Res::Data(Ok(d)) => format!("{} bytes", d.len()),
        r => format!("{r:?}"),
    }
}
