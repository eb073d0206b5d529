#![allow(static_mut_refs)]
#[cfg(not(feature = "neon"))]
use jpeg_decoder as jpeg;
#[cfg(feature = "neon")]
use jpeg_neon as jpeg;
include!("../../wasm/src/proto.rs");
use std::io::Write;
use std::panic::{catch_unwind, set_hook, AssertUnwindSafe};
use std::sync::Mutex;

static PANIC: Mutex<String> = Mutex::new(String::new());

fn main() {
    set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{m} at {l}");
    }));
    let mut i = std::io::stdin();
    let mut o = std::io::stdout();
    let mut say = |b: &[u8]| {
        o.write_all(b).unwrap();
        o.flush().unwrap();
    };
    say(&[cfg!(feature = "neon") as u8]);
    loop {
        let mut n = [0u8; 4];
        if i.read_exact(&mut n).is_err() {
            return;
        }
        let mut q = vec![0u8; u32::from_le_bytes(n) as usize];
        i.read_exact(&mut q).unwrap();
        let mut r = vec![0u8; 4];
        if catch_unwind(AssertUnwindSafe(|| answer(&q, &mut r))).is_err() {
            r.push(7);
            let m = PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
            bytes(&mut r, m.as_bytes());
        }
        let n = (r.len() - 4) as u32;
        r[..4].copy_from_slice(&n.to_le_bytes());
        say(&r);
    }
}
