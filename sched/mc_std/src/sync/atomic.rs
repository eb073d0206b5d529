//! Atomics: every access is a scheduling point.
pub use std::sync::atomic::{compiler_fence, fence, Ordering};
use crate::rt::{self, Meta, Wait};
use std::sync::atomic as a;
use std::fmt;

pub fn spin_loop_hint() {
    rt::yield_now(&Meta::new());
}
macro_rules! common {
    ($n:ident, $t:ty $(, $g:ident)?) => {
        impl$(<$g>)? $n$(<$g>)? {
            pub const fn new(v: $t) -> Self {
                $n { meta: Meta::new(), v: a::$n::new(v) }
            }
            pub fn load(&self, o: Ordering) -> $t {
                rt::point(&self.meta, "load", Wait::No);
                self.v.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                rt::point(&self.meta, "store", Wait::No);
                self.v.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                rt::point(&self.meta, "swap", Wait::No);
                self.v.swap(v, o)
            }
            pub fn compare_exchange(&self, x: $t, y: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                rt::point(&self.meta, "cas", Wait::No);
                self.v.compare_exchange(x, y, o, p)
            }
            pub fn compare_exchange_weak(&self, x: $t, y: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                self.compare_exchange(x, y, o, p)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, mut f: F) -> Result<$t, $t> {
                let mut x = self.load(p);
                while let Some(y) = f(x) {
                    match self.compare_exchange(x, y, o, p) {
                        Ok(v) => return Ok(v),
                        Err(v) => x = v,
                    }
                }
                Err(x)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.v.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.v.into_inner()
            }
        }
        impl$(<$g>)? fmt::Debug for $n$(<$g>)? {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.v.fmt(f)
            }
        }
    };
}
macro_rules! ops {
    ($n:ident, $t:ty, $($f:ident)*) => {
        impl $n {
            $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                rt::point(&self.meta, stringify!($f), Wait::No);
                self.v.$f(v, o)
            })*
        }
        impl Default for $n {
            fn default() -> Self {
                $n::new(Default::default())
            }
        }
        impl From<$t> for $n {
            fn from(v: $t) -> Self {
                $n::new(v)
            }
        }
    };
}
macro_rules! ints {
    ($($n:ident $t:ty;)*) => { $(
        pub struct $n { meta: Meta, v: a::$n }
        common!($n, $t);
        ops!($n, $t, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);
    )* };
}
ints! { AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize; AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize; }
pub struct AtomicBool {
    meta: Meta,
    v: a::AtomicBool,
}
common!(AtomicBool, bool);
ops!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);
pub struct AtomicPtr<T> {
    meta: Meta,
    v: a::AtomicPtr<T>,
}
common!(AtomicPtr, *mut T, T);
