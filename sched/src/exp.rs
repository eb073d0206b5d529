//! Runs of the code under test in its builds: under the scheduler (two builds) and as it is (one).
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Mpsc,
    Rayon,
    /// the real build with helper threads, outside the scheduler
    Real,
}
macro_rules! sut {
    ($f:ident, $k:ident) => {
        fn $f(bytes: &[u8], scale: Option<(u16, u16)>, twice: bool) -> String {
            let mut d = $k::Decoder::new(bytes);
            let mut o = String::new();
            if let Some((w, h)) = scale {
                o += &match d.scale(w, h) {
                    Ok(x) => format!("{x:?} "),
                    Err(e) => format!("{} ", $f::err(e)),
                };
            }
            mod $f {
                pub fn err(e: $k::Error) -> String {
                    match e {
                        $k::Error::Format(m) => format!("Format({m})"),
                        $k::Error::Unsupported(f) => format!("Unsupported({f:?})"),
                        $k::Error::Io(e) => format!("Io({:?}, {e})", e.kind()),
                        $k::Error::Internal(e) => format!("Internal({e})"),
                    }
                }
            }
            for _ in 0..1 + twice as u32 {
                match d.decode() {
                    Ok(p) => {
                        let mut h = DefaultHasher::new();
                        p.hash(&mut h);
                        o += &format!("{} bytes {:016x} {:?};", p.len(), h.finish(), d.info().map(|i| (i.width, i.height)));
                    }
                    Err(e) => o += &format!("{};", $f::err(e)),
                }
            }
            o
        }
    };
}
sut!(mpsc, sched_mpsc);
sut!(rayon, sched_rayon);
sut!(real, jpeg_mpsc);
pub fn run(v: V, bytes: &[u8], scale: Option<(u16, u16)>, twice: bool) -> String {
    match v {
        V::Mpsc => mpsc(bytes, scale, twice),
        V::Rayon => rayon(bytes, scale, twice),
        V::Real => real(bytes, scale, twice),
    }
}
pub fn pixels(bytes: &[u8], scale: Option<(u16, u16)>) -> Option<Vec<u8>> {
    let mut d = jpeg_mpsc::Decoder::new(bytes);
    if let Some((w, h)) = scale {
        d.scale(w, h).ok()?;
    }
    d.set_color_transform(jpeg_mpsc::ColorTransform::None);
    d.decode().ok()
}
