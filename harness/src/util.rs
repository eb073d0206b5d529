/// `ensure!(cond, sig, fmt...)`: fail the case with a message.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($f:tt)*) => {
        if !$c {
            return $crate::engine::fail($sig, format!($($f)*));
        }
    };
}
/// First differing index of two byte strings.
pub fn first_diff(a: &[u8], b: &[u8]) -> Option<(usize, i32, i32)> {
    if let Some(i) = (0..a.len().min(b.len())).find(|&i| a[i] != b[i]) {
        return Some((i, a[i] as i32, b[i] as i32));
    }
    if a.len() != b.len() {
        return Some((a.len().min(b.len()), -1, -1));
    }
    None
}
pub fn cdiv(a: usize, b: usize) -> usize {
    (a + b - 1) / b
}
/// Deterministic small hash for generating distinct contents.
pub fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_mul(0xC2B2_AE3D_27D4_EB4F) ^ c.wrapping_mul(0x1656_67B1_9E37_79F9);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    x
}
