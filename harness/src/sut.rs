//! Adaptor to the code under test in its different build configurations.
//! Only the public API is used.
use crate::remote::Kind;
use std::cell::RefCell;
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Rayon,
    Mpsc,
    Pi,
    /// portable code with the thread pool; compared with the others in C21
    PiRayon,
    /// built for wasm32, run by node
    Wasm,
    /// the same with the SIMD code
    WasmSimd,
    /// the SIMD code for aarch64, its instructions replaced by their definitions
    Neon,
    /// under memory checkers
    Asan,
    AsanNeon,
    Miri,
    MiriNeon,
}
impl V {
    pub fn remote(self) -> Option<Kind> {
        Some(match self {
            V::Wasm => Kind::Wasm,
            V::WasmSimd => Kind::WasmSimd,
            V::Asan => Kind::Asan,
            V::AsanNeon => Kind::AsanNeon,
            V::Miri => Kind::Miri,
            V::MiriNeon => Kind::MiriNeon,
            _ => return None,
        })
    }
}
pub const ALLV: [V; 3] = [V::Rayon, V::Mpsc, V::Pi];
/// `v` and, where their builds could be made, the SIMD code for wasm32 and for aarch64.
pub fn with_arch(v: &[V]) -> Vec<V> {
    let mut v = v.to_vec();
    if crate::remote::available() {
        v.push(V::WasmSimd);
    }
    if NEON {
        v.push(V::Neon);
    }
    v
}
pub const NEON: bool = cfg!(feature = "neon");

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ct {
    None,
    Unknown,
    Gray,
    Rgb,
    YCbCr,
    Cmyk,
    Ycck,
    BgYcc,
    BgRgb,
}
pub const ALLCT: [Ct; 9] = [
    Ct::None,
    Ct::Unknown,
    Ct::Gray,
    Ct::Rgb,
    Ct::YCbCr,
    Ct::Cmyk,
    Ct::Ycck,
    Ct::BgYcc,
    Ct::BgRgb,
];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum E {
    Format(String),
    Unsupported(String),
    Io(String, String),
    Internal(String),
    Panic(String),
}
impl E {
    /// Category: the observable kind without the free-text message.
    pub fn cat(&self) -> String {
        match self {
            E::Format(_) => "Format".into(),
            E::Unsupported(f) => format!("Unsupported({f})"),
            E::Io(k, _) => format!("Io({k})"),
            E::Internal(_) => "Internal".into(),
            E::Panic(m) => format!("PANIC {m}"),
        }
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, E::Panic(_))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pf {
    L8,
    L16,
    Rgb24,
    Cmyk32,
}
impl Pf {
    pub fn bytes(self) -> usize {
        match self {
            Pf::L8 => 1,
            Pf::L16 => 2,
            Pf::Rgb24 => 3,
            Pf::Cmyk32 => 4,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cp {
    Seq,
    Prog,
    Lossless,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Info {
    pub w: u16,
    pub h: u16,
    pub pf: Pf,
    pub pixel_bytes: usize,
    pub cp: Cp,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    ReadInfo,
    Scale(u16, u16),
    SetCt(Ct),
    SetLimit(usize),
    /// info, exif, xmp, icc
    Meta,
    Decode,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Meta {
    pub info: Option<Info>,
    pub exif: Option<Vec<u8>>,
    pub xmp: Option<Vec<u8>>,
    pub icc: Option<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Res {
    Unit(Result<(), E>),
    Dims(Result<(u16, u16), E>),
    Meta(Meta),
    Data(Result<Vec<u8>, E>),
    Panic(String),
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}
static HELPER_PANIC: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let m = format!("{msg} at {loc}");
        if std::env::var_os("MC_SHOW_PANICS").is_some() {
            eprintln!("panic: {m}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = Some(m.clone()));
        if let Ok(mut g) = HELPER_PANIC.try_lock() {
            *g = Some(m);
        }
    }));
}
pub fn take_panic() -> String {
    PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

macro_rules! sut_impl {
    ($name:ident, $krate:ident) => {
        mod $name {
            use super::*;
            fn err(e: $krate::Error) -> E {
                match e {
                    $krate::Error::Format(m) => E::Format(m),
                    $krate::Error::Unsupported(f) => E::Unsupported(format!("{f:?}")),
                    $krate::Error::Io(e) => E::Io(format!("{:?}", e.kind()), e.to_string()),
                    $krate::Error::Internal(e) => E::Internal(e.to_string()),
                }
            }
            fn ct(c: Ct) -> $krate::ColorTransform {
                use $krate::ColorTransform as T;
                match c {
                    Ct::None => T::None,
                    Ct::Unknown => T::Unknown,
                    Ct::Gray => T::Grayscale,
                    Ct::Rgb => T::RGB,
                    Ct::YCbCr => T::YCbCr,
                    Ct::Cmyk => T::CMYK,
                    Ct::Ycck => T::YCCK,
                    Ct::BgYcc => T::JcsBgYcc,
                    Ct::BgRgb => T::JcsBgRgb,
                }
            }
            fn info(i: $krate::ImageInfo) -> Info {
                Info {
                    w: i.width,
                    h: i.height,
                    pixel_bytes: i.pixel_format.pixel_bytes(),
                    pf: match i.pixel_format {
                        $krate::PixelFormat::L8 => Pf::L8,
                        $krate::PixelFormat::L16 => Pf::L16,
                        $krate::PixelFormat::RGB24 => Pf::Rgb24,
                        $krate::PixelFormat::CMYK32 => Pf::Cmyk32,
                    },
                    cp: match i.coding_process {
                        $krate::CodingProcess::DctSequential => Cp::Seq,
                        $krate::CodingProcess::DctProgressive => Cp::Prog,
                        $krate::CodingProcess::Lossless => Cp::Lossless,
                    },
                }
            }
            fn step<R: Read>(d: &mut $krate::Decoder<R>, a: &Act) -> Res {
                match a {
                    Act::ReadInfo => Res::Unit(d.read_info().map_err(err)),
                    Act::Scale(w, h) => Res::Dims(d.scale(*w, *h).map_err(err)),
                    Act::SetCt(c) => {
                        d.set_color_transform(ct(*c));
                        Res::Unit(Ok(()))
                    }
                    Act::SetLimit(l) => {
                        d.set_max_decoding_buffer_size(*l);
                        Res::Unit(Ok(()))
                    }
                    Act::Meta => Res::Meta(Meta {
                        info: d.info().map(info),
                        exif: d.exif_data().map(|x| x.to_vec()),
                        xmp: d.xmp_data().map(|x| x.to_vec()),
                        icc: d.icc_profile(),
                    }),
                    Act::Decode => Res::Data(d.decode().map_err(err)),
                }
            }
            pub fn session(reader: &mut dyn Read, acts: &[Act], out: &mut Vec<Res>) {
                let mut d = $krate::Decoder::new(reader);
                for a in acts {
                    out.push(step(&mut d, a));
                }
            }
            pub fn pair(a: &mut dyn Read, b: &mut dyn Read, acts: &[(bool, Act)], out: &mut Vec<Res>) {
                let mut a = $krate::Decoder::new(a);
                let mut b = $krate::Decoder::new(b);
                for (second, x) in acts {
                    out.push(if *second { step(&mut b, x) } else { step(&mut a, x) });
                }
            }
        }
    };
}
sut_impl!(i_rayon, jpeg_rayon);
sut_impl!(i_mpsc, jpeg_mpsc);
sut_impl!(i_pi, jpeg_pi);
sut_impl!(i_pir, jpeg_pir);
#[cfg(feature = "neon")]
sut_impl!(i_neon, jpeg_neon);
#[cfg(not(feature = "neon"))]
use i_pi as i_neon;

/// Run a whole API history on a fresh decoder. A panic ends the list with `Res::Panic`.
pub fn session(v: V, reader: &mut dyn Read, acts: &[Act]) -> Vec<Res> {
    let mut out = Vec::with_capacity(acts.len());
    let r = catch_unwind(AssertUnwindSafe(|| match v {
        V::Rayon => i_rayon::session(reader, acts, &mut out),
        V::Mpsc => i_mpsc::session(reader, acts, &mut out),
        V::Pi => i_pi::session(reader, acts, &mut out),
        V::PiRayon => i_pir::session(reader, acts, &mut out),
        V::Neon => i_neon::session(reader, acts, &mut out),
        v => {
            let mut b = vec![];
            reader.read_to_end(&mut b).expect("plain stream");
            out = crate::remote::session(v.remote().unwrap(), &b, acts).0;
        }
    }));
    if r.is_err() {
        let mut m = take_panic();
        if m.contains("worker thread error") {
            if let Some(h) = HELPER_PANIC.lock().ok().and_then(|mut g| g.take()) {
                m = format!("{m} (last panic in process: {h})");
            }
        }
        out.push(Res::Panic(m));
    }
    out
}

/// Two decoders on one thread, their API calls interleaved in the given order.
pub fn pair_session(v: V, a: &mut dyn Read, b: &mut dyn Read, acts: &[(bool, Act)]) -> Vec<Res> {
    let mut out = Vec::with_capacity(acts.len());
    let r = catch_unwind(AssertUnwindSafe(|| match v {
        V::Rayon => i_rayon::pair(a, b, acts, &mut out),
        V::Mpsc => i_mpsc::pair(a, b, acts, &mut out),
        V::Pi => i_pi::pair(a, b, acts, &mut out),
        V::PiRayon => i_pir::pair(a, b, acts, &mut out),
        V::Neon => i_neon::pair(a, b, acts, &mut out),
        _ => unimplemented!("one decoder at a time"),
    }));
    if r.is_err() {
        out.push(Res::Panic(take_panic()));
    }
    out
}

#[derive(Clone, Debug, Default, PartialEq, Hash)]
pub struct Opts {
    pub scale: Option<(u16, u16)>,
    pub ct: Option<Ct>,
    pub limit: Option<usize>,
}
impl Opts {
    pub fn ct(c: Ct) -> Opts {
        Opts { ct: Some(c), ..Default::default() }
    }
    pub fn scale(w: u16, h: u16) -> Opts {
        Opts { scale: Some((w, h)), ..Default::default() }
    }
}

/// The full observable outcome of one decode.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Out {
    pub res: Result<Vec<u8>, E>,
    pub scale_ret: Option<Result<(u16, u16), E>>,
    pub meta: Meta,
    pub consumed: usize,
}
impl Out {
    pub fn info(&self) -> Option<Info> {
        self.meta.info
    }
    pub fn brief(&self) -> String {
        match &self.res {
            Ok(d) => format!("Ok({} bytes, info {:?})", d.len(), self.meta.info),
            Err(e) => format!("Err({e:?})"),
        }
    }
    /// The outcome with free-text error messages dropped (byte position dropped for errors too).
    pub fn norm(&self) -> (Result<Vec<u8>, String>, Option<Info>, Option<Vec<u8>>, Option<Vec<u8>>, Option<Vec<u8>>) {
        let r = self.res.clone().map_err(|e| e.cat());
        if r.is_err() {
            return (r, None, None, None, None);
        }
        (r, self.meta.info, self.meta.exif.clone(), self.meta.xmp.clone(), self.meta.icc.clone())
    }
}

/// A reader over a byte slice which detects a decoder that keeps polling after end of stream.
pub struct SliceReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    eof_reads: u32,
}
impl<'a> SliceReader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        SliceReader { data, pos: 0, eof_reads: 0 }
    }
}
impl<'a> Read for SliceReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.pos);
        if n == 0 && !buf.is_empty() {
            self.eof_reads += 1;
            if self.eof_reads > 10_000 {
                panic!("runaway: the decoder polls the reader forever after end of stream");
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn acts_for(o: &Opts) -> Vec<Act> {
    let mut a = vec![];
    if let Some(c) = o.ct {
        a.push(Act::SetCt(c));
    }
    if let Some(l) = o.limit {
        a.push(Act::SetLimit(l));
    }
    if let Some((w, h)) = o.scale {
        a.push(Act::Scale(w, h));
    }
    a.push(Act::Decode);
    a.push(Act::Meta);
    a
}

pub fn decode_reader(v: V, rd: &mut dyn Read, o: &Opts) -> Out {
    let acts = acts_for(o);
    outcome_of(session(v, rd, &acts))
}
fn outcome_of(rs: Vec<Res>) -> Out {
    let mut out = Out { res: Err(E::Panic("no result".into())), scale_ret: None, meta: Meta::default(), consumed: 0 };
    for r in rs {
        match r {
            Res::Dims(d) => out.scale_ret = Some(d),
            Res::Data(d) => out.res = d,
            Res::Meta(m) => out.meta = m,
            Res::Panic(m) => {
                out.res = Err(E::Panic(m));
                out.scale_ret = None;
            }
            Res::Unit(_) => {}
        }
    }
    // a failing scale() (metadata error) is the outcome of the decode
    if let Some(Err(e)) = &out.scale_ret {
        if !matches!(out.res, Err(E::Panic(_))) {
            out.res = Err(e.clone());
        }
    }
    out
}

pub fn decode(v: V, bytes: &[u8], o: &Opts) -> Out {
    if let Some(k) = v.remote() {
        let (rs, n) = crate::remote::session(k, bytes, &acts_for(o));
        let mut out = outcome_of(rs);
        out.consumed = n;
        return out;
    }
    let mut rd = SliceReader::new(bytes);
    let mut out = decode_reader(v, &mut rd, o);
    out.consumed = rd.pos;
    out
}
