//! The decoder built for wasm32, driven one API history at a time by driver.js.
use jpeg_decoder as jpeg;
include!("proto.rs");

static mut REQ: Vec<u8> = Vec::new();
static mut RESP: Vec<u8> = Vec::new();
static mut PANIC: Vec<u8> = Vec::new();

#[no_mangle]
pub extern "C" fn init() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe { *(&raw mut PANIC) = format!("{msg} at {loc}").into_bytes() };
    }));
}
#[no_mangle]
pub extern "C" fn req(n: usize) -> *mut u8 {
    unsafe {
        let r = &mut *(&raw mut REQ);
        r.clear();
        r.resize(n, 0);
        r.as_mut_ptr()
    }
}
#[no_mangle]
pub extern "C" fn resp() -> *const u8 {
    unsafe { (*(&raw const RESP)).as_ptr() }
}
#[no_mangle]
pub extern "C" fn resp_len() -> usize {
    unsafe { (*(&raw const RESP)).len() }
}
#[no_mangle]
pub extern "C" fn panic_ptr() -> *const u8 {
    unsafe { (*(&raw const PANIC)).as_ptr() }
}
#[no_mangle]
pub extern "C" fn panic_len() -> usize {
    unsafe { (*(&raw const PANIC)).len() }
}
/// 1 if this build contains the SIMD code
#[no_mangle]
pub extern "C" fn simd() -> u32 {
    cfg!(target_feature = "simd128") as u32
}
#[no_mangle]
pub extern "C" fn run() {
    let r: &'static [u8] = unsafe { &*(&raw const REQ) };
    let o: &'static mut Vec<u8> = unsafe { &mut *(&raw mut RESP) };
    o.clear();
    answer(r, o);
}
