use crate::engine::*;
use crate::jpeg::*;
use crate::sut::*;
use crate::util::*;

pub mod bases;
use bases::busy_block;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;

pub struct Spec {
    pub models: Vec<Model>,
    pub bounds: String,
    pub assumptions: Vec<String>,
    pub hang_s: u64,
}
pub fn spec(bounds: &str, assumptions: &[&str], models: Vec<Model>) -> Spec {
    Spec { models, bounds: bounds.into(), assumptions: assumptions.iter().map(|s| s.to_string()).collect(), hang_s: 90 }
}

pub fn get(id: &str, tier: Tier) -> Option<Spec> {
    Some(match id {
        "C01" => c01::spec(tier),
        "C02" => c02::spec(tier),
        "C03" => c03::spec(tier),
        "C04" => c04::spec(tier),
        "C05" => c05::spec(tier),
        "C06" => c06::spec(tier),
        "C07" => c07::spec(tier),
        "C08" => c08::spec(tier),
        "C09" => c09::spec(tier),
        "C10" => c10::spec(tier),
        "C11" => c11::spec(tier),
        "C12" => c12::spec(tier),
        "C13" => c13::spec(tier),
        "C14" => c14::spec(tier),
        "C15" => c15::spec(tier),
        "C16" => c16::spec(tier),
        "C17" => c17::spec(tier),
        "C18" => c18::spec(tier),
        "C19" => c19::spec(tier),
        "C21" => c21::spec(tier),
        "C22" => c22::spec(tier),
        "C23" => c23::spec(tier),
        "C24" => c24::spec(tier),
        "C25" => c25::spec(tier),
        "C26" => c26::spec(tier),
        "C27" => c27::spec(tier),
        "C28" => c28::spec(tier),
        "C29" => c29::spec(tier),
        "C30" => c30::spec(tier),
        _ => return None,
    })
}

/// Decode and count the run.
pub fn dec(ctx: &mut Ctx, v: V, bytes: &[u8], o: &Opts) -> Out {
    ctx.stream(bytes);
    ctx.trace();
    decode(v, bytes, o)
}

/// The override that returns raw interleaved samples for this component count, with a flag telling
/// whether the samples come inverted.
pub fn raw_ct(n: usize) -> (Option<Ct>, bool) {
    match n {
        1 => (None, false),
        3 => (Some(Ct::Rgb), false),
        _ => (Some(Ct::Cmyk), true),
    }
}
/// Decode to raw interleaved samples (no colour conversion).
pub fn dec_raw(ctx: &mut Ctx, v: V, bytes: &[u8], ncomp: usize, scale: Option<(u16, u16)>) -> Out {
    let (ct, inv) = raw_ct(ncomp);
    let mut o = dec(ctx, v, bytes, &Opts { ct, scale, limit: None });
    if inv {
        if let Ok(d) = &mut o.res {
            d.iter_mut().for_each(|x| *x = 255 - *x);
        }
    }
    o
}
pub fn must(out: &Out, what: &str) -> Result<Vec<u8>, Fail> {
    match &out.res {
        Ok(d) => Ok(d.clone()),
        Err(e) => fail(if e.is_panic() { "panic" } else { "error" }, format!("{what}: expected success, got {e:?}")),
    }
}

/// All ordered partitions of 0..n into groups (each group ascending).
pub fn ordered_partitions(n: usize) -> Vec<Vec<Vec<usize>>> {
    fn rec(rest: Vec<usize>) -> Vec<Vec<Vec<usize>>> {
        if rest.is_empty() {
            return vec![vec![]];
        }
        let m = rest.len();
        let mut out = vec![];
        for mask in 1u32..(1 << m) {
            let (mut a, mut b) = (vec![], vec![]);
            for (i, &x) in rest.iter().enumerate() {
                if mask >> i & 1 == 1 {
                    a.push(x)
                } else {
                    b.push(x)
                }
            }
            for mut tail in rec(b) {
                let mut v = vec![a.clone()];
                v.append(&mut tail);
                out.push(v);
            }
        }
        out
    }
    let mut v = rec((0..n).collect());
    v.sort_by_key(|p| p.len());
    v
}
/// A scan with more than one component may hold at most 10 blocks per MCU.
pub fn legal_group(img: &Img, g: &[usize]) -> bool {
    g.len() == 1 || g.iter().map(|&c| img.comps[c].h * img.comps[c].v).sum::<usize>() <= 10
}
pub fn integer_ratios(f: &[(usize, usize)]) -> bool {
    let hm = f.iter().map(|x| x.0).max().unwrap();
    let vm = f.iter().map(|x| x.1).max().unwrap();
    f.iter().all(|x| hm % x.0 == 0 && vm % x.1 == 0)
}

