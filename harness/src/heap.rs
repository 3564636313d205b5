//! A counting allocator: how much memory the calls under observation use.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static LIVE: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

pub struct Counting;

fn add(n: usize) {
    TOTAL.fetch_add(n, Relaxed);
    let l = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        LIVE.fetch_sub(l.size(), Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n);
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        q
    }
}

/// How many bytes have been allocated so far.
pub fn total() -> usize {
    TOTAL.load(Relaxed)
}

/// Runs `f`, and says how many bytes it had allocated at its worst.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = LIVE.load(Relaxed);
    PEAK.store(before, Relaxed);
    let t = f();
    (t, PEAK.load(Relaxed).saturating_sub(before))
}

/// How many bytes on the heap `x` takes, once it's been copied (so without
/// the room a collection keeps for what's to come).
pub fn size<T: Clone>(x: &T) -> usize {
    let before = LIVE.load(Relaxed);
    let y = x.clone();
    let n = LIVE.load(Relaxed).saturating_sub(before);
    drop(y);
    n
}
