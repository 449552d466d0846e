//! A counting allocator; checks that need it install it as global allocator.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::hint::black_box;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
}

/// `d`: change of the bytes held; `n`: bytes asked for.
fn add(d: isize, n: usize) {
    let _ = LIVE.try_with(|c| {
        let l = c.get() + d;
        c.set(l);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l)));
    });
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = TOTAL.try_with(|c| c.set(c.get().wrapping_add(n)));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize, n);
        System.realloc(p, l, n)
    }
}

// The compiler may take allocator calls to have no other effects; black_box
// keeps the counters in memory and read in place.

/// Bytes currently allocated (relative to thread start).
#[inline(never)]
pub fn live() -> isize {
    LIVE.with(|c| black_box(c).get())
}

/// Number of allocator calls so far.
#[inline(never)]
pub fn calls() -> usize {
    CALLS.with(|c| black_box(c).get())
}

/// The most bytes held since `reset_peak`.
#[inline(never)]
pub fn peak() -> isize {
    PEAK.with(|c| black_box(c).get())
}

#[inline(never)]
pub fn reset_peak() {
    let l = live();
    PEAK.with(|c| black_box(c).set(l))
}

/// Bytes asked of the allocator so far, a reallocation counting in full.
#[inline(never)]
pub fn total() -> usize {
    TOTAL.with(|c| black_box(c).get())
}
