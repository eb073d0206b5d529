//! `std`, except that threads, channels, locks and atomics run under the scheduler in `rt`.
//! Linked into the code under test under the name `std`.
pub use std::*;
pub mod rt;
pub mod sync;
pub mod thread;
