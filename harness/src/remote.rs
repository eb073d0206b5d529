//! Builds of the decoder that run in a process of their own, one API history per request: wasm32
//! (32-bit address space, no threads) with and without SIMD, run by node; the host's SIMD code and the
//! NEON code under AddressSanitizer and in Miri. One child per thread of the explorer and per build.
use crate::sut::*;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Wasm,
    WasmSimd,
    Asan,
    AsanNeon,
    Miri,
    MiriNeon,
}
const KINDS: usize = 6;
pub struct Host {
    child: Child,
    tx: Option<ChildStdin>,
    rx: ChildStdout,
}
impl Drop for Host {
    fn drop(&mut self) {
        self.tx.take();
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static HOSTS: RefCell<[Option<Host>; KINDS]> = const { RefCell::new([const { None }; KINDS]) };
}
/// What bin/check leaves when the build succeeds with the current tree.
fn artefact(k: Kind) -> &'static str {
    match k {
        Kind::Wasm => "/verif/target/wasm/scalar/wasm32-unknown-unknown/release/wasmdec.wasm",
        Kind::WasmSimd => "/verif/target/wasm/simd/wasm32-unknown-unknown/release/wasmdec.wasm",
        Kind::Asan => "/verif/target/asan/host/x86_64-unknown-linux-gnu/release/host",
        Kind::AsanNeon => "/verif/target/asan/neon/x86_64-unknown-linux-gnu/release/host",
        Kind::Miri => "/verif/target/miri/host/built",
        Kind::MiriNeon => "/verif/target/miri/neon/built",
    }
}
pub fn has(k: Kind) -> bool {
    std::path::Path::new(artefact(k)).exists()
}
/// The wasm32 builds
pub fn available() -> bool {
    std::env::var_os("MC_NO_WASM").is_none() && has(Kind::Wasm) && has(Kind::WasmSimd)
}
fn start(k: Kind) -> Host {
    let mut c = match k {
        Kind::Wasm | Kind::WasmSimd => {
            let mut c = Command::new("node");
            c.arg("/verif/wasm/driver.js").arg(artefact(k));
            c
        }
        Kind::Asan | Kind::AsanNeon => {
            let mut c = Command::new(artefact(k));
            c.env("ASAN_OPTIONS", "detect_leaks=0:exitcode=77:allocator_may_return_null=1");
            c
        }
        Kind::Miri | Kind::MiriNeon => {
            let mut c = Command::new("/verif/bin/miri");
            c.arg(if k == Kind::Miri { "host" } else { "neon" });
            c
        }
    };
    let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(if matches!(k, Kind::Wasm | Kind::WasmSimd) { Stdio::inherit() } else { Stdio::piped() }).spawn().expect("host starts");
    let tx = child.stdin.take();
    let mut rx = child.stdout.take().unwrap();
    let mut hello = [0u8];
    rx.read_exact(&mut hello).expect("host answers");
    assert_eq!(hello[0], matches!(k, Kind::WasmSimd | Kind::AsanNeon | Kind::MiriNeon) as u8, "host of the wrong kind");
    Host { child, tx, rx }
}
impl Host {
    fn ask(&mut self, q: &[u8]) -> std::io::Result<Vec<u8>> {
        self.tx.as_mut().unwrap().write_all(q)?;
        let mut l = [0u8; 4];
        self.rx.read_exact(&mut l)?;
        let mut r = vec![0u8; u32::from_le_bytes(l) as usize];
        self.rx.read_exact(&mut r)?;
        Ok(r)
    }
    /// What a memory checker wrote before it ended the process.
    fn last_words(&mut self) -> String {
        let mut s = vec![];
        self.tx.take();
        if let Some(mut e) = self.child.stderr.take() {
            let _ = e.read_to_end(&mut s);
        }
        let s = String::from_utf8_lossy(&s);
        let at = s.find("ERROR: AddressSanitizer").or_else(|| s.find("error: ")).unwrap_or(0);
        s[at..].lines().filter(|l| !l.contains("0x") || l.contains("in jpeg") || l.contains("ERROR") || l.contains("error")).take(8).map(|l| l.trim()).collect::<Vec<_>>().join(" / ")
    }
}
struct P<'a>(&'a [u8]);
impl P<'_> {
    fn take(&mut self, n: usize) -> &[u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.take(2).try_into().unwrap())
    }
    fn bytes(&mut self) -> Vec<u8> {
        let n = u32::from_le_bytes(self.take(4).try_into().unwrap()) as usize;
        self.take(n).to_vec()
    }
    fn str(&mut self) -> String {
        String::from_utf8_lossy(&self.bytes()).into_owned()
    }
    fn opt(&mut self) -> Option<Vec<u8>> {
        if self.u8() == 1 {
            Some(self.bytes())
        } else {
            None
        }
    }
    fn err(&mut self) -> E {
        let t = self.u8();
        let a = self.str();
        let b = self.str();
        match t {
            0 => E::Format(a),
            1 => E::Unsupported(a),
            2 => E::Io(a, b),
            _ => E::Internal(a),
        }
    }
}
/// Run an API history on `bytes`; also returns how many bytes were consumed.
pub fn session(k: Kind, bytes: &[u8], acts: &[Act]) -> (Vec<Res>, usize) {
    let mut q = vec![0u8; 4];
    q.extend_from_slice(&(acts.len() as u16).to_le_bytes());
    for a in acts {
        match a {
            Act::ReadInfo => q.push(0),
            Act::Scale(w, h) => {
                q.push(1);
                q.extend_from_slice(&w.to_le_bytes());
                q.extend_from_slice(&h.to_le_bytes());
            }
            Act::SetCt(c) => {
                q.push(2);
                q.push(ALLCT.iter().position(|x| x == c).unwrap() as u8);
            }
            Act::SetLimit(l) => {
                q.push(3);
                q.extend_from_slice(&(*l).min(u32::MAX as usize).to_le_bytes()[..4]);
            }
            Act::Meta => q.push(4),
            Act::Decode => q.push(5),
        }
    }
    q.extend_from_slice(bytes);
    let n = (q.len() - 4) as u32;
    q[..4].copy_from_slice(&n.to_le_bytes());
    let r = HOSTS.with(|h| {
        let mut h = h.borrow_mut();
        let slot = &mut h[k as usize];
        let host = slot.get_or_insert_with(|| start(k));
        match host.ask(&q) {
            Ok(r) => Ok(r),
            Err(_) => {
                let w = host.last_words();
                *slot = None;
                Err(w)
            }
        }
    });
    let r = match r {
        Ok(r) => r,
        Err(w) => return (vec![Res::Panic(format!("the process died: {w}"))], 0),
    };
    let mut p = P(&r);
    let mut out = vec![];
    let mut consumed = 0;
    while !p.0.is_empty() {
        match p.u8() {
            0 => out.push(Res::Unit(Ok(()))),
            1 => out.push(Res::Unit(Err(p.err()))),
            2 => out.push(Res::Dims(Ok((p.u16(), p.u16())))),
            3 => out.push(Res::Dims(Err(p.err()))),
            4 => {
                let info = (p.u8() == 1).then(|| Info {
                    w: p.u16(),
                    h: p.u16(),
                    pf: [Pf::L8, Pf::L16, Pf::Rgb24, Pf::Cmyk32][p.u8() as usize],
                    pixel_bytes: p.u8() as usize,
                    cp: [Cp::Seq, Cp::Prog, Cp::Lossless][p.u8() as usize],
                });
                out.push(Res::Meta(Meta { info, exif: p.opt(), xmp: p.opt(), icc: p.opt() }));
            }
            5 => out.push(Res::Data(Ok(p.bytes()))),
            6 => out.push(Res::Data(Err(p.err()))),
            7 => out.push(Res::Panic(p.str())),
            _ => consumed = u32::from_le_bytes(p.take(4).try_into().unwrap()) as usize,
        }
    }
    (out, consumed)
}
