use super::bases::*;
use super::*;
use std::sync::Arc;

/// One segment of the alphabet.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum T {
    Soi,
    Eoi,
    Sof(u8),
    /// DCT scan header with data: component set (bit mask), progressive band
    Sos(u8, Band),
    Dqt,
    Dht,
    Dri,
    Com,
    App(u8),
    Rst(u8),
    Dnl,
    Dac,
    Dhp,
    Exp,
    /// any other marker byte (no payload)
    Other(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Band {
    /// whatever the process codes first: everything (sequential), DC, or lossless predictor 1
    First,
    /// AC band 1..63
    Ac,
}
/// The kind of image the sequences are about.
#[derive(Clone, Copy)]
struct World {
    n: usize,
}
impl World {
    fn frame(&self, m: u8) -> Vec<u8> {
        let mut p = vec![8, 0, 8, 0, 8, self.n as u8];
        for i in 0..self.n {
            p.extend([i as u8 + 1, 0x11, 0]);
        }
        seg(m, &p)
    }
    fn bytes(&self, t: T, frame: u8) -> Vec<u8> {
        match t {
            T::Soi => SOI.to_vec(),
            T::Eoi => EOI.to_vec(),
            T::Sof(m) => self.frame(m),
            T::Dqt => dqt(0, 0, &[16; 64]),
            T::Dht => {
                let mut p = dht_body(&HTable::from_lens(0, 0, &[(0, 1), (3, 2)]));
                p.extend(dht_body(&HTable::from_lens(1, 0, &[(0, 1), (2, 2)])));
                seg(0xC4, &p)
            }
            T::Dri => dri(70),
            T::Com => com(b"c\xff\xd9"),
            T::App(n) => app(n, b"app\xff\xda\0\x04"),
            T::Rst(n) => vec![0xFF, 0xD0 + n],
            T::Dnl => seg(0xDC, &[0, 8]),
            T::Dac => seg(0xCC, &[0, 0]),
            T::Dhp => self.frame(0xDE),
            T::Exp => seg(0xDF, &[0x11]),
            T::Other(b) => vec![0xFF, b],
            T::Sos(mask, band) => {
                let comps: Vec<usize> = (0..self.n).filter(|i| mask >> i & 1 == 1).collect();
                let mut p = vec![comps.len() as u8];
                for &c in &comps {
                    p.extend([c as u8 + 1, 0]);
                }
                let mut bw = Bw::default();
                match (frame, band) {
                    (2, Band::First) => {
                        p.extend([0, 0, 0]);
                        for c in &comps {
                            bw.put(0b10, 2); // category 3
                            bw.put(4 + *c as u32, 3);
                        }
                    }
                    (_, Band::Ac) => {
                        p.extend([1, 63, 0]);
                        bw.put(0b10, 2); // run 0, category 2
                        bw.put(3, 2);
                        bw.put(0, 1);
                    }
                    (3, _) => {
                        p.extend([1, 0, 0]);
                        for i in 0..64 {
                            for c in &comps {
                                if i == 5 {
                                    bw.put(0b10, 2);
                                    bw.put(4 + *c as u32, 3);
                                } else {
                                    bw.put(0, 1);
                                }
                            }
                        }
                    }
                    _ => {
                        p.extend([0, 63, 0]);
                        for c in &comps {
                            bw.put(0b10, 2);
                            bw.put(4 + *c as u32, 3);
                            bw.put(0b10, 2);
                            bw.put(3, 2);
                            bw.put(0, 1);
                        }
                    }
                }
                bw.flush();
                let mut s = seg(0xDA, &p);
                s.extend(bw.out);
                s
            }
        }
    }
}
/// State of the grammar.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct St {
    frame: Option<u8>,
    q: bool,
    h: bool,
    /// the previous segment was a scan, possibly with restart markers after it
    after_scan: bool,
    /// restart markers since that scan
    rsts: u8,
    scans: u32,
    /// components with a complete (sequential, lossless) or a DC scan
    coded: u8,
    ac: u8,
    /// something happened whose legality the format leaves to other rules
    odd: bool,
}
enum Step {
    /// accepted
    Go(St),
    /// image ends here, decodable or not
    End(Vec<&'static str>),
    /// refused with one of these categories
    No(Vec<&'static str>),
    /// either refused or accepted (then the exploration stops)
    Vague,
}
const F: &str = "Format";
const HIER: &str = "Unsupported(Hierarchical)";
const ARITH: &str = "Unsupported(ArithmeticEntropyCoding)";
fn step(w: World, s: &St, t: T) -> Step {
    let mut n = s.clone();
    n.after_scan = false;
    n.rsts = 0;
    match t {
        T::Soi | T::Other(_) => return Step::No(vec![F]),
        T::Dac => return Step::No(vec![ARITH]),
        T::Dhp | T::Exp => return Step::No(vec![HIER]),
        T::Com | T::App(_) | T::Dri => {}
        T::Dqt => n.q = true,
        T::Dht => n.h = true,
        T::Rst(_) => {
            if !s.after_scan {
                return Step::No(vec![F]);
            }
            n.after_scan = true;
            n.rsts = (s.rsts + 1).min(2);
            if s.frame == Some(3) && n.rsts > 1 {
                return Step::Vague; // more than one marker after lossless data
            }
        }
        T::Dnl => {
            // defined to follow the first scan immediately
            return if s.after_scan && s.scans == 1 {
                if s.rsts > 0 {
                    Step::No(vec!["Unsupported(DNL)", F])
                } else {
                    Step::No(vec!["Unsupported(DNL)"])
                }
            } else {
                Step::No(vec![F])
            };
        }
        T::Sof(m) => {
            let k = m & 15;
            let mut no = vec![];
            if s.frame.is_some() {
                no.push(HIER); // several frames are the hierarchical mode
            }
            if matches!(k, 5..=7 | 13..=15) {
                no.push(HIER);
            }
            if k >= 9 {
                no.push(ARITH);
            }
            if s.frame.is_some() {
                return Step::No(vec![HIER]);
            }
            if !no.is_empty() {
                return Step::No(no);
            }
            n.frame = Some(k);
        }
        T::Sos(mask, band) => {
            let Some(f) = s.frame else { return Step::No(vec![F]) };
            match f {
                3 => {
                    if band == Band::Ac || !s.h {
                        return Step::No(vec![F]); // a selection end of 63 is not allowed
                    }
                    n.odd |= s.coded & mask != 0;
                    n.coded |= mask;
                }
                2 => {
                    if !s.q || !s.h || (band == Band::Ac && mask.count_ones() > 1) {
                        return Step::No(vec![F]);
                    }
                    if band == Band::Ac {
                        n.odd |= s.ac & mask != 0 || s.coded & mask != mask;
                        n.ac |= mask;
                    } else {
                        n.odd |= s.coded & mask != 0;
                        n.coded |= mask;
                    }
                }
                _ => {
                    if !s.q || !s.h || band == Band::Ac {
                        return Step::No(vec![F]);
                    }
                    n.odd |= s.coded & mask != 0;
                    n.coded |= mask;
                }
            }
            if n.odd {
                return Step::Vague;
            }
            n.after_scan = true;
            n.scans += 1;
        }
        T::Eoi => {
            if s.frame.is_none() {
                return Step::End(vec![F]);
            }
            let all = (1u8 << w.n) - 1;
            return match s.frame {
                Some(2) if s.coded == all => Step::End(vec!["Ok"]),
                // components never delivered: the image of zero coefficients, or an error
                Some(2) if s.scans > 0 => Step::End(vec!["Ok", F]),
                Some(_) if s.scans > 0 && s.coded == all => Step::End(vec!["Ok"]),
                _ => Step::End(vec![F]),
            };
        }
    }
    Step::Go(n)
}
fn outcome(o: &Out) -> String {
    match &o.res {
        Ok(_) => "Ok".into(),
        Err(e) => e.cat(),
    }
}
/// Explores one path through the grammar; every prefix is run on the decoder when it is complete.
fn path(ctx: &mut Ctx, v: V, w: World, alphabet: &[T], depth: usize, ending: bool) -> R {
    let mut st = St::default();
    let mut b = SOI.to_vec();
    let mut desc = vec![T::Soi];
    let opts = Opts { ct: if w.n == 1 { None } else { Some(Ct::None) }, ..Default::default() };
    let mut frame_end = None;
    for _ in 0..depth {
        // 0: the stream ends here
        let k = ctx.choose(alphabet.len() + 1);
        if k == 0 {
            break;
        }
        let t = alphabet[k - 1];
        desc.push(t);
        b.extend(w.bytes(t, st.frame.unwrap_or(0)));
        ctx.describe(|| format!("{v:?} {desc:?}"));
        match step(w, &st, t) {
            Step::Go(n) => {
                if st.frame.is_none() && n.frame.is_some() {
                    frame_end = Some(b.len());
                }
                st = n;
            }
            Step::Vague => {
                ctx.state((&b, v));
                let mut x = b.clone();
                x.extend(EOI);
                let o = dec(ctx, v, &x, &opts);
                let c = outcome(&o);
                ctx.outcome(&c);
                ensure!(c == "Ok" || c == F, "vague", "{v:?} {desc:?}: {c}");
                return Ok(());
            }
            Step::No(cats) => {
                // whatever follows must not matter
                for tail in [&[][..], &EOI[..], &[0xFF, 0xD8, 0xFF, 0xD9, 0, 0][..]] {
                    let mut x = b.clone();
                    x.extend(tail);
                    x.extend([0; 20]);
                    ctx.state((&x, v));
                    let o = dec(ctx, v, &x, &opts);
                    let c = outcome(&o);
                    ctx.outcome(&c);
                    ensure!(cats.iter().any(|k| *k == c), "category", "{v:?} {desc:?} + {tail:02x?}: {} but expected {cats:?}", o.brief());
                    // metadata alone is available if the frame header came first
                    info(ctx, v, &x, frame_end.is_some(), &c, &desc)?;
                }
                return Ok(());
            }
            Step::End(cats) => {
                for tail in [&[][..], &[0xFF, 0xD9][..], &[0xFF, 0xC0, 0, 3][..]] {
                    let mut x = b.clone();
                    x.extend(tail);
                    ctx.state((&x, v));
                    let o = dec(ctx, v, &x, &opts);
                    let c = outcome(&o);
                    ctx.outcome(&c);
                    ensure!(cats.iter().any(|k| *k == c), "end", "{v:?} {desc:?} + {tail:02x?}: {} but expected {cats:?}", o.brief());
                    if c == "Ok" {
                        ensure!(o.res.as_ref().unwrap().len() == 64 * w.n, "size", "{v:?} {desc:?}: {}", o.brief());
                        ensure!(o.consumed == b.len(), "consumed", "{v:?} {desc:?}: {} of {} bytes read", o.consumed, b.len());
                    }
                    info(ctx, v, &x, frame_end.is_some(), &c, &desc)?;
                }
                return Ok(());
            }
        }
    }
    if !ending {
        return Ok(());
    }
    // the stream ends without an end-of-image marker
    for cut in 0..2 {
        let mut x = b.clone();
        if cut == 1 {
            x.push(0xFF);
        }
        ctx.state((&x, v));
        let o = dec(ctx, v, &x, &opts);
        let c = outcome(&o);
        ctx.outcome(&c);
        ensure!(c == "Io(UnexpectedEof)", "eof", "{v:?} {desc:?} then the end of the stream: {}", o.brief());
        info(ctx, v, &x, frame_end.is_some(), &c, &desc)?;
    }
    Ok(())
}
fn info(ctx: &mut Ctx, v: V, b: &[u8], ok: bool, cat: &str, desc: &[T]) -> R {
    ctx.trace();
    let r = session(v, &mut SliceReader::new(b), &[Act::ReadInfo]);
    let c = match r.first() {
        Some(Res::Unit(Ok(()))) => "Ok".to_string(),
        Some(Res::Unit(Err(e))) => e.cat(),
        x => format!("{x:?}"),
    };
    ensure!(c == if ok { "Ok" } else { cat }, "read_info", "{v:?} {desc:?}: read_info gives {c}, frame header seen: {ok}, decode gives {cat}");
    Ok(())
}

pub fn spec(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut models = vec![];
    let full: Arc<Vec<T>> = Arc::new({
        use T::*;
        vec![Eoi, Sof(0xC0), Sos(1, Band::First), Dqt, Dht, Sof(0xC2), Sof(0xC3), Sos(1, Band::Ac), Dri, Com, App(0), App(2), App(14), Rst(0), Rst(5), Dnl, Soi, Sof(0xC1), Sof(0xC5), Sof(0xC9), Sof(0xCF), Dac, Dhp, Exp, Other(0x01), Other(0x02), Other(0xBF), Other(0xC8), Other(0xF0), Other(0xFD)]
    });
    models.push(model("gray: every sequence over the full alphabet", {
        let full = full.clone();
        move |ctx| path(ctx, V::Pi, World { n: 1 }, &full, if ctx.thorough() { 6 } else { 5 }, true)
    }));
    models.push(model("gray: longer sequences over the core alphabet", |ctx| {
        use T::*;
        let m = ctx.pick(&[0xC0u8, 0xC1, 0xC2, 0xC3]);
        let a = [Eoi, Sof(m), Sos(1, Band::First), Dqt, Dht, Rst(0), Dnl, Com, Sos(1, Band::Ac)];
        let d = if ctx.thorough() { 8 } else { 7 };
        path(ctx, V::Mpsc, World { n: 1 }, &a, d, true)
    }));
    models.push(model("every marker byte in every state", |ctx| {
        // states: start, tables, frame, after a scan, after scan and comment, complete
        use T::*;
        let m = ctx.pick(&[0xC0u8, 0xC2, 0xC3]);
        let pre: [&[T]; 8] = [&[], &[Dqt], &[Dqt, Dht], &[Sof(m)], &[Dqt, Dht, Sof(m)], &[Dqt, Dht, Sof(m), Sos(1, Band::First)], &[Dqt, Dht, Sof(m), Sos(1, Band::First), Com], &[Dqt, Dht, Sof(m), Sos(1, Band::First), Rst(1)]];
        let p = ctx.pick(&pre);
        let x = ctx.range(1, 254) as u8;
        let v = ctx.pick(&ALLV);
        let w = World { n: 1 };
        let t = match x {
            0xC0..=0xC3 | 0xC5..=0xC7 | 0xC9..=0xCB | 0xCD..=0xCF => Sof(x),
            0xC4 => Dht,
            0xCC => Dac,
            0xD0..=0xD7 => Rst(x - 0xD0),
            0xD8 => Soi,
            0xD9 => Eoi,
            0xDA => Sos(1, Band::First),
            0xDB => Dqt,
            0xDC => Dnl,
            0xDD => Dri,
            0xDE => Dhp,
            0xDF => Exp,
            0xE0..=0xEF => App(x - 0xE0),
            0xFE => Com,
            _ => Other(x),
        };
        let seq: Vec<T> = p.iter().copied().chain([t]).collect();
        fixed(ctx, v, w, &seq)
    }));
    models.push(model("three components: every sequence of scans", |ctx| {
        use T::*;
        let m = ctx.pick(&[0xC0u8, 0xC2, 0xC3]);
        let b = Band::First;
        let mut a = vec![Eoi, Sos(7, b), Sos(1, b), Sos(2, b), Sos(4, b), Sos(3, b), Sos(6, b), Dri, Rst(2), Dnl];
        if m == 0xC2 {
            a.extend([Sos(1, Band::Ac), Sos(4, Band::Ac), Sos(5, Band::Ac)]);
        }
        let head = [Dqt, Dht, Sof(m)];
        let d = if ctx.thorough() { 5 } else { 4 };
        let mut seq = head.to_vec();
        for _ in 0..d {
            let k = ctx.choose(a.len() + 1);
            if k == 0 {
                break;
            }
            seq.push(a[k - 1]);
            if a[k - 1] == Eoi {
                break;
            }
        }
        fixed(ctx, V::Pi, World { n: 3 }, &seq)
    }));
    models.push(model("the first two bytes", |ctx| {
        let x = ctx.choose(256) as u8;
        let y = ctx.choose(256) as u8;
        let v = ctx.pick(&[V::Mpsc, V::Pi]);
        let w = World { n: 1 };
        let mut b = vec![x, y];
        for t in [T::Dqt, T::Dht, T::Sof(0xC0), T::Sos(1, Band::First), T::Eoi] {
            b.extend(w.bytes(t, 0));
        }
        ctx.state((&b, v));
        ctx.describe(|| format!("{x:02x} {y:02x}"));
        let o = dec(ctx, v, &b, &Opts::default());
        ctx.outcome(outcome(&o));
        let want = if (x, y) == (0xFF, 0xD8) { "Ok" } else { F };
        ensure!(outcome(&o) == want, "soi", "{v:?} stream starting with {x:02x} {y:02x}: {}", o.brief());
        // the empty stream and the one-byte stream
        let o = dec(ctx, v, &b[..1], &Opts::default());
        let want = if x == 0xFF { "Io(UnexpectedEof)" } else { F };
        ensure!(outcome(&o) == want, "one-byte", "{v:?} stream of one byte {x:02x}: {}", o.brief());
        let o = dec(ctx, v, &[], &Opts::default());
        ensure!(outcome(&o) == "Io(UnexpectedEof)", "empty", "{v:?} empty stream: {}", o.brief());
        Ok(())
    }));
    let _ = th;
    super::spec(
        "all sequences of up to 5 (thorough 6) segments over 30 kinds and up to 7 (8) over 9 kinds x 4 processes, pruned at the first refusal; every marker byte in 8 states x 3 processes x 3 builds; all scan sequences of up to 4 (5) for three components; all first two bytes; each with three continuations and with the end of the stream",
        &["vague by design: a component scanned twice, AC before DC, more than one restart marker after lossless data; undelivered progressive components"],
        models,
    )
}
/// A fixed sequence of segments: the grammar's verdict against the decoder.
fn fixed(ctx: &mut Ctx, v: V, w: World, seq: &[T]) -> R {
    let mut st = St::default();
    let mut b = SOI.to_vec();
    let opts = Opts { ct: if w.n == 1 { None } else { Some(Ct::None) }, ..Default::default() };
    let mut want: Vec<&str> = vec!["Io(UnexpectedEof)"];
    let mut vague = false;
    for (i, &t) in seq.iter().enumerate() {
        b.extend(w.bytes(t, st.frame.unwrap_or(0)));
        match step(w, &st, t) {
            Step::Go(n) => st = n,
            Step::Vague => {
                vague = true;
                b.extend(EOI);
                break;
            }
            Step::No(c) | Step::End(c) => {
                if i + 1 < seq.len() {
                    return Ok(()); // a shorter sequence has covered this
                }
                want = c;
            }
        }
    }
    ctx.state((&b, v));
    ctx.describe(|| format!("{v:?} {seq:?}"));
    let o = dec(ctx, v, &b, &opts);
    let c = outcome(&o);
    ctx.outcome(&c);
    if vague {
        ensure!(c == "Ok" || c == F, "vague", "{v:?} {seq:?}: {c}");
    } else {
        ensure!(want.contains(&&c[..]), "category", "{v:?} {seq:?}: {} but expected {want:?}", o.brief());
    }
    Ok(())
}
