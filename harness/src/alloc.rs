//! Counts the heap memory of the current thread, or (in a process of its own) of all threads.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::Relaxed};

pub struct Counting;
thread_local! {
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
static ALL: AtomicBool = AtomicBool::new(false);
static ALL_NOW: AtomicIsize = AtomicIsize::new(0);
static ALL_PEAK: AtomicIsize = AtomicIsize::new(0);

fn add(n: isize) {
    let _ = NOW.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
    if ALL.load(Relaxed) {
        let v = ALL_NOW.fetch_add(n, Relaxed) + n;
        if n > 0 {
            ALL_PEAK.fetch_max(v, Relaxed);
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
/// Bytes at the peak and bytes kept at the end, of this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, isize, isize) {
    let n0 = NOW.with(|c| c.get());
    PEAK.with(|c| c.set(n0));
    let r = f();
    (r, PEAK.with(|c| c.get()) - n0, NOW.with(|c| c.get()) - n0)
}
/// Count all threads of this process from now on.
pub fn count_all() {
    ALL.store(true, Relaxed);
}
pub fn all_now() -> isize {
    ALL_NOW.load(Relaxed)
}
/// Bytes at the peak since the last call of this function with `true`.
pub fn all_peak(reset: bool) -> isize {
    if reset {
        ALL_PEAK.store(ALL_NOW.load(Relaxed), Relaxed);
    }
    ALL_PEAK.load(Relaxed)
}
