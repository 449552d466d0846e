//! Receives LLVM SanitizerCoverage callbacks in the "cov" build (the other
//! builds never call them): 8-bit edge counters, and the operands of
//! comparisons, whose constants become a dictionary for the generators.

use std::cell::UnsafeCell;

pub struct Sync1<T>(pub UnsafeCell<T>);
// Workers are single-threaded; these cells are only touched by that thread.
unsafe impl<T> Sync for Sync1<T> {}

const DICT_MAX: usize = 2048;
const PAIRS: usize = 256;

pub struct State {
    pub regions: Vec<(usize, usize)>,
    pub seen: Vec<u8>,
    pub edges: usize,
    pub on: bool,
    pub dict: Vec<u64>,
    table: [u64; 4096],
    pub pairs: [(u64, u64); PAIRS],
    pub npairs: usize,
}

static ST: Sync1<State> = Sync1(UnsafeCell::new(State {
    regions: Vec::new(),
    seen: Vec::new(),
    edges: 0,
    on: false,
    dict: Vec::new(),
    table: [0; 4096],
    pairs: [(0, 0); PAIRS],
    npairs: 0,
}));

#[allow(clippy::mut_from_ref)]
pub fn st() -> &'static mut State {
    unsafe { &mut *ST.0.get() }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let s = st();
    let r = (start as usize, stop as usize);
    if r.0 < r.1 && !s.regions.contains(&r) {
        s.regions.push(r);
        let n = s.seen.len() + (r.1 - r.0);
        s.seen.resize(n, 0);
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

pub fn add_dict(c: u64) {
    if c <= 8 {
        return;
    }
    let s = st();
    let slot = (c.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 52) as usize;
    if s.table[slot] == c {
        return;
    }
    s.table[slot] = c;
    if s.dict.len() < DICT_MAX && !s.dict.contains(&c) {
        s.dict.push(c);
    }
}

#[inline(always)]
fn cmp(konst: bool, a: u64, b: u64) {
    let s = st();
    if !s.on {
        return;
    }
    if konst {
        add_dict(a);
    }
    if a != b {
        s.pairs[s.npairs % PAIRS] = (a, b);
        s.npairs += 1;
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(_: u8, _: u8) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, b: u16) {
    cmp(true, a as u64, b as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(a: u16, b: u16) {
    cmp(false, a as u64, b as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, b: u32) {
    cmp(true, a as u64, b as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(a: u32, b: u32) {
    cmp(false, a as u64, b as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, b: u64) {
    cmp(true, a, b)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(a: u64, b: u64) {
    cmp(false, a, b)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(val: u64, cases: *const u64) {
    if !st().on {
        return;
    }
    let n = *cases as usize;
    for i in 0..n.min(64) {
        cmp(true, *cases.add(2 + i), val);
    }
}

/// Clears the counters before a case.
pub fn start() {
    let s = st();
    for &(a, b) in &s.regions {
        unsafe { std::ptr::write_bytes(a as *mut u8, 0, b - a) };
    }
    s.npairs = 0;
    if s.dict.capacity() < DICT_MAX {
        s.dict.reserve_exact(DICT_MAX); // no allocation inside a case
    }
    s.on = true;
}

fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// After a case: did it reach an edge, or an edge count class, not seen before?
pub fn finish() -> bool {
    let s = st();
    s.on = false;
    let mut new = false;
    let mut base = 0;
    for &(a, b) in &s.regions {
        let len = b - a;
        let c = unsafe { std::slice::from_raw_parts(a as *const u8, len) };
        for i in 0..len {
            if c[i] != 0 {
                let k = bucket(c[i]);
                let seen = &mut s.seen[base + i];
                if *seen & k == 0 {
                    if *seen == 0 {
                        s.edges += 1;
                    }
                    *seen |= k;
                    new = true;
                }
            }
        }
        base += len;
    }
    new
}

pub fn instrumented() -> bool {
    !st().regions.is_empty()
}
