use super::bases::*;
use super::*;
use std::sync::Arc;

const JUNK: &[&[u8]] = &[&[], &[0], &[0xFF], &[0xFF, 0xD9], &[0xFF, 0xD8, 0xFF], &[0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], &[0xFF, 0xD0, 0xFF, 0xDA], &[0, 0, 0, 0, 0, 0, 0, 0]];

fn exact(ctx: &mut Ctx, v: V, bytes: &[u8], junk: &[u8], o: &Opts, what: &str) -> R {
    let mut all = bytes.to_vec();
    all.extend_from_slice(junk);
    let a = dec(ctx, v, bytes, o);
    must(&a, what)?;
    let b = dec(ctx, v, &all, o);
    ensure!(a.consumed == bytes.len(), "consumed", "{v:?} {what}: consumed {} of {} bytes", a.consumed, bytes.len());
    ensure!(b.consumed == bytes.len(), "overread", "{v:?} {what}: consumed {} bytes, image has {} (followed by {junk:02x?})", b.consumed, bytes.len());
    ensure!(a.res == b.res && a.meta == b.meta, "influence", "{v:?} {what}: trailing bytes {junk:02x?} changed the result to {}", b.brief());
    Ok(())
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut bs = all_bases();
    bs.extend(super::c04::extra_bases());
    let bs = Arc::new(bs);
    let mut models = vec![];
    {
        let b = bs.clone();
        models.push(model("trailing bytes", move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let v = ctx.pick(&ALLV);
            let j = ctx.choose(JUNK.len());
            let scale = ctx.pick(&[None, Some((1u16, 1u16)), Some((9, 9))]);
            ctx.state((base.name, v, j, scale));
            ctx.describe(|| format!("{} followed by {:02x?}", base.name, JUNK[j]));
            exact(ctx, v, &base.bytes, JUNK[j], &Opts { scale, ..Default::default() }, base.name)
        }));
    }
    {
        let b = bs.clone();
        models.push(model("metadata reading stops at the end of the frame header", move |ctx| {
            let base = &b[ctx.choose(b.len())];
            let v = ctx.pick(&ALLV);
            let h = ctx.choose(5);
            let acts = match h {
                0 => vec![Act::ReadInfo],
                1 => vec![Act::ReadInfo, Act::ReadInfo],
                2 => vec![Act::Scale(1, 1)],
                3 => vec![Act::ReadInfo, Act::Scale(5, 5), Act::ReadInfo, Act::Scale(1, 1), Act::Meta],
                _ => vec![Act::SetCt(Ct::None), Act::SetLimit(7), Act::ReadInfo],
            };
            ctx.state((base.name, v, h));
            ctx.stream(&base.bytes);
            ctx.trace();
            let mut rd = SliceReader::new(&base.bytes);
            let rs = session(v, &mut rd, &acts);
            ensure!(rs.iter().all(|r| !matches!(r, Res::Unit(Err(_)) | Res::Dims(Err(_)) | Res::Panic(_))), "error", "{v:?} {} {acts:?}: {rs:?}", base.name);
            ensure!(rd.pos == base.sof_end, "consumed", "{v:?} {} {acts:?}: consumed {} bytes, the frame header ends at {}", base.name, rd.pos, base.sof_end);
            Ok(())
        }));
    }
    {
        let b = bs.clone();
        let depth = if th { 3 } else { 2 };
        models.push(model("images stored back to back", move |ctx| {
            let v = ctx.pick(&ALLV);
            let idx: Vec<usize> = (0..depth).map(|_| ctx.choose(b.len())).collect();
            let pre = ctx.choose(2); // read_info first
            let all: Vec<u8> = idx.iter().flat_map(|&i| b[i].bytes.clone()).collect();
            ctx.state((v, &idx, pre));
            ctx.stream(&all);
            let mut rd = SliceReader::new(&all);
            let mut end = 0;
            for &i in &idx {
                end += b[i].bytes.len();
                let acts = if pre == 1 { vec![Act::ReadInfo, Act::Decode, Act::Meta] } else { vec![Act::Decode, Act::Meta] };
                let got = session(v, &mut rd, &acts);
                let want = session(v, &mut SliceReader::new(&b[i].bytes), &acts);
                ctx.trace();
                ensure!(got == want, "influence", "{v:?}: images {idx:?} back to back: image {} differs from decoding it alone", b[i].name);
                ensure!(rd.pos == end, "consumed", "{v:?}: images {idx:?} back to back: reader at {} after {} (its end is {end})", rd.pos, b[i].name);
            }
            Ok(())
        }));
    }
    {
        models.push(model("entropy-coded segments of every length", move |ctx| {
            let nz = ctx.choose(64);
            let mag = ctx.pick(if ctx.thorough() { &[1i16, 2, 3, 6, 11, 30, 63, 127, 300, 1000][..] } else { &[1i16, 3, 11, 127][..] });
            let sofn = ctx.pick(&[0u8, 2, 3]);
            let huff = ctx.pick(&[Huff::Flat, Huff::Skew, Huff::Long]);
            let (img, scans) = if sofn == 3 {
                (lossless(if mag > 10 { 16 } else { 8 }, 1 + nz % 8, 1 + nz / 8, 1, mag as u64), vec![Scan::lossless(&[0], 1 + (nz % 7) as u8, 0).huff(huff)])
            } else {
                let mut img = Img::new(sofn, 8, 8, &[(1, 1)]);
                for k in 0..nz {
                    img.comps[0].blocks[0][k + 1] = if k % 3 == 1 { -mag } else { mag };
                }
                (img, if sofn == 0 { vec![Scan::seq(&[0]).huff(huff)] } else { vec![Scan::prog(&[0], 0, 0, 0, 0).huff(huff), Scan::prog(&[0], 1, 63, 0, 0).huff(huff)] })
            };
            let bytes = stream(&img, &qts(), &scans);
            ctx.state(&bytes);
            ctx.describe(|| format!("sof{sofn} {nz} x {mag} {huff:?}"));
            let j = ctx.pick(&[2usize, 3, 5, 6]);
            exact(ctx, V::Rayon, &bytes, JUNK[j], &Opts::default(), "short scan")
        }));
    }
    super::spec("26 valid streams x 9 trailing byte strings x variants; all ordered pairs (thorough: triples) of them back to back; scans of 0..63 coefficients in three code shapes", &[], models)
}
