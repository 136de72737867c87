//! Counting global allocator: the observable for memory footprints.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, AtomicBool, Ordering};

pub struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
static ON: AtomicBool = AtomicBool::new(true);

pub fn live() -> isize {
    LIVE.load(Ordering::Relaxed)
}
pub fn reset_peak() {
    PEAK.store(live(), Ordering::Relaxed);
}
pub fn peak() -> isize {
    PEAK.load(Ordering::Relaxed)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() && ON.load(Ordering::Relaxed) {
            let v = LIVE.fetch_add(l.size() as isize, Ordering::Relaxed) + l.size() as isize;
            PEAK.fetch_max(v, Ordering::Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            let d = n as isize - l.size() as isize;
            let v = LIVE.fetch_add(d, Ordering::Relaxed) + d;
            PEAK.fetch_max(v, Ordering::Relaxed);
        }
        q
    }
}
