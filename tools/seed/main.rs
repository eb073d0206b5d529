//! Runs the cases of cases.txt against the decoder in the current directory's checkout.
//! A case: name, reader, calls, stream (hex), expected results; separated by tabs.
use jpeg_decoder::{ColorTransform, Decoder, Error};
use std::cell::Cell;
use std::io::{self, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

struct Rd {
    d: Vec<u8>,
    pos: Rc<Cell<usize>>,
    chunk: usize,
    /// kind and offset of a one-time error
    err: Option<(io::ErrorKind, usize)>,
}
impl Read for Rd {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let p = self.pos.get();
        let mut end = (p + b.len().min(self.chunk)).min(self.d.len());
        if let Some((k, at)) = self.err {
            if p >= at && !b.is_empty() {
                self.err = None;
                return Err(k.into());
            }
            end = end.min(at);
        }
        b[..end - p].copy_from_slice(&self.d[p..end]);
        self.pos.set(end);
        Ok(end - p)
    }
}
fn err(e: &Error) -> String {
    match e {
        Error::Format(_) => "Format".into(),
        Error::Unsupported(_) => "Unsupported".into(),
        Error::Io(e) => format!("Io {:?}", e.kind()),
        Error::Internal(_) => "Internal".into(),
    }
}
fn fnv(d: &[u8]) -> u64 {
    d.iter().fold(0xcbf29ce484222325, |h, &b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn show(o: Option<&[u8]>) -> String {
    o.map_or("none".into(), |d| format!("{}:{:016x}", d.len(), fnv(d)))
}
fn run(reader: &str, acts: &str, data: Vec<u8>) -> String {
    let pos = Rc::new(Cell::new(0));
    let num = |s: &str| s.parse::<usize>().unwrap();
    let (k, n) = reader.split_once(':').unwrap_or((reader, "0"));
    let mut rd = Rd { d: data, pos: pos.clone(), chunk: usize::MAX, err: None };
    match k {
        "all" => {}
        "chunk" => rd.chunk = num(n),
        "intr" => rd.err = Some((io::ErrorKind::Interrupted, num(n))),
        "err" => rd.err = Some((io::ErrorKind::ConnectionReset, num(n))),
        "cut" => rd.d.truncate(num(n)),
        _ => panic!("reader {reader}"),
    }
    let mut out = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut d = Decoder::new(rd);
        for a in acts.split(',') {
            let (k, n) = a.split_once(':').unwrap_or((a, ""));
            out.push(match k {
                "read_info" => d.read_info().map_or_else(|e| err(&e), |_| "ok".into()),
                "scale" => {
                    let (w, h) = n.split_once('x').unwrap();
                    d.scale(num(w) as u16, num(h) as u16).map_or_else(|e| err(&e), |s| format!("{s:?}"))
                }
                "limit" => {
                    d.set_max_decoding_buffer_size(num(n));
                    continue;
                }
                "ct" => {
                    d.set_color_transform(match n {
                        "RGB" => ColorTransform::RGB,
                        "YCbCr" => ColorTransform::YCbCr,
                        "None" => ColorTransform::None,
                        "CMYK" => ColorTransform::CMYK,
                        "YCCK" => ColorTransform::YCCK,
                        _ => panic!("{n}"),
                    });
                    continue;
                }
                "decode" => d.decode().map_or_else(|e| err(&e), |p| show(Some(&p))),
                "info" => format!("{:?}", d.info()),
                "exif" => show(d.exif_data()),
                "xmp" => show(d.xmp_data()),
                "icc" => show(d.icc_profile().as_deref()),
                "pos" => format!("{}", pos.get()),
                _ => panic!("{a}"),
            });
        }
    }));
    if r.is_err() {
        out.push("panic".into());
    }
    out.join(" | ")
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        println!("no answer after 20 s");
        std::process::exit(2);
    });
    let print = std::env::args().nth(2).is_some();
    let mut bad = 0;
    for l in std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let data = (0..f[3].len() / 2).map(|i| u8::from_str_radix(&f[3][2 * i..2 * i + 2], 16).unwrap()).collect();
        let got = run(f[1], f[2], data);
        if print {
            println!("{}\t{}\t{}\t{}\t{}", f[0], f[1], f[2], f[3], got);
        } else if got != f[4] {
            println!("{} [{}] [{}]: {} instead of {}", f[0], f[1], f[2], got, f[4]);
            bad += 1;
        }
    }
    if bad > 0 {
        std::process::exit(1);
    }
}
