// Included by wasm/src/lib.rs and hosts/src/main.rs, which import the decoder as `jpeg`.
// Request: u16 number of calls, the calls, the stream. Response: one record per call, then the number
// of bytes consumed. If a call panics, the response holds the records of the calls before it.
use jpeg::{CodingProcess, ColorTransform as T, Decoder, Error, PixelFormat};
use std::io::Read;

struct Slice<'a> {
    data: &'a [u8],
    pos: usize,
    eof: u32,
}
impl Read for &mut Slice<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.pos);
        if n == 0 && !buf.is_empty() {
            self.eof += 1;
            assert!(self.eof <= 10_000, "runaway: the decoder polls the reader forever after end of stream");
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn bytes(o: &mut Vec<u8>, b: &[u8]) {
    o.extend_from_slice(&(b.len() as u32).to_le_bytes());
    o.extend_from_slice(b);
}
fn err(o: &mut Vec<u8>, e: Error) {
    let (t, a, b) = match e {
        Error::Format(m) => (0, m, String::new()),
        Error::Unsupported(f) => (1, format!("{f:?}"), String::new()),
        Error::Io(e) => (2, format!("{:?}", e.kind()), e.to_string()),
        Error::Internal(e) => (3, e.to_string(), String::new()),
    };
    o.push(t);
    bytes(o, a.as_bytes());
    bytes(o, b.as_bytes());
}
fn opt(o: &mut Vec<u8>, b: Option<&[u8]>) {
    o.push(b.is_some() as u8);
    if let Some(b) = b {
        bytes(o, b);
    }
}
pub fn answer(r: &[u8], o: &mut Vec<u8>) {
    let u16at = |p: usize| u16::from_le_bytes([r[p], r[p + 1]]);
    let n = u16at(0);
    let mut p = 2;
    let mut acts = vec![];
    for _ in 0..n {
        acts.push(p);
        p += match r[p] {
            1 => 5,
            2 => 2,
            3 => 5,
            _ => 1,
        };
    }
    let mut rd = Slice { data: &r[p..], pos: 0, eof: 0 };
    let mut d = Decoder::new(&mut rd);
    for p in acts {
        match r[p] {
            0 => match d.read_info() {
                Ok(()) => o.push(0),
                Err(e) => {
                    o.push(1);
                    err(o, e);
                }
            },
            1 => match d.scale(u16at(p + 1), u16at(p + 3)) {
                Ok((w, h)) => {
                    o.push(2);
                    o.extend_from_slice(&w.to_le_bytes());
                    o.extend_from_slice(&h.to_le_bytes());
                }
                Err(e) => {
                    o.push(3);
                    err(o, e);
                }
            },
            2 => {
                let t = [T::None, T::Unknown, T::Grayscale, T::RGB, T::YCbCr, T::CMYK, T::YCCK, T::JcsBgYcc, T::JcsBgRgb];
                d.set_color_transform(t[r[p + 1] as usize]);
                o.push(0);
            }
            3 => {
                d.set_max_decoding_buffer_size(u32::from_le_bytes([r[p + 1], r[p + 2], r[p + 3], r[p + 4]]) as usize);
                o.push(0);
            }
            4 => {
                o.push(4);
                let i = d.info();
                o.push(i.is_some() as u8);
                if let Some(i) = i {
                    o.extend_from_slice(&i.width.to_le_bytes());
                    o.extend_from_slice(&i.height.to_le_bytes());
                    o.push(match i.pixel_format {
                        PixelFormat::L8 => 0,
                        PixelFormat::L16 => 1,
                        PixelFormat::RGB24 => 2,
                        PixelFormat::CMYK32 => 3,
                    });
                    o.push(i.pixel_format.pixel_bytes() as u8);
                    o.push(match i.coding_process {
                        CodingProcess::DctSequential => 0,
                        CodingProcess::DctProgressive => 1,
                        CodingProcess::Lossless => 2,
                    });
                }
                opt(o, d.exif_data());
                opt(o, d.xmp_data());
                opt(o, d.icc_profile().as_deref());
            }
            _ => match d.decode() {
                Ok(v) => {
                    o.push(5);
                    bytes(o, &v);
                }
                Err(e) => {
                    o.push(6);
                    err(o, e);
                }
            },
        }
    }
    drop(d);
    o.push(8);
    o.extend_from_slice(&(rd.pos as u32).to_le_bytes());
}
