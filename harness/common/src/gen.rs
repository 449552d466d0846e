use crate::low;
use engine::{Rng, Src};

/// A bit length: mostly around a few blocks, sometimes longer.
pub fn gen_len(s: &mut Src, max: usize) -> usize {
    match s.weighted(&[40, 34, 18, 8]) {
        0 => s.size(40.min(max)),
        1 => s.size(300.min(max)),
        2 => s.size(2500.min(max)),
        _ => s.size(max),
    }
}

/// Bits in many shapes: nearly constant, random of several densities, runs,
/// periodic, drawn words.
pub fn gen_bits(s: &mut Src, len: usize) -> Vec<bool> {
    let mut m = vec![false; len];
    if len == 0 {
        return m;
    }
    match s.weighted(&[3, 5, 3, 2, 3]) {
        0 => {
            if s.bool() {
                m.iter_mut().for_each(|b| *b = true);
            }
            while s.more(2, 3) {
                let i = s.size(len - 1);
                m[i] = !m[i];
            }
        }
        1 => {
            let d = s.weighted(&[4, 2, 2, 1, 1]);
            let seed = s.draw(u64::MAX, |r| r.next());
            let mut r = Rng::new(&[seed]);
            let mut i = 0;
            while i < len {
                let w = match d {
                    0 => r.next(),
                    1 => r.next() & r.next() & r.next(),
                    2 => r.next() | r.next() | r.next(),
                    3 => (0..6).fold(u64::MAX, |a, _| a & r.next()),
                    _ => (0..6).fold(0, |a, _| a | r.next()),
                };
                for k in 0..64.min(len - i) {
                    m[i + k] = w >> k & 1 == 1;
                }
                i += 64;
            }
        }
        2 => {
            let mut v = s.bool();
            let mut i = 0;
            let mut n = 0;
            while i < len && n < 200 {
                let run = 1 + s.size(len - i - 1);
                m[i..i + run].iter_mut().for_each(|b| *b = v);
                v = !v;
                i += run;
                n += 1;
            }
        }
        3 => {
            let w = s.word();
            let p = s.range(1, 64) as usize;
            for i in 0..len {
                m[i] = w >> (i % p) & 1 == 1;
            }
        }
        _ => {
            let mut i = 0;
            while i < len {
                let w = if i < 64 * 40 { s.word() } else { 0 };
                for k in 0..64.min(len - i) {
                    m[i + k] = w >> k & 1 == 1;
                }
                i += 64;
            }
        }
    }
    m
}

/// A position in `0 .. len`, biased to boundaries; `len > 0`.
pub fn gen_pos(s: &mut Src, len: usize) -> usize {
    s.size(len - 1)
}

/// A span `(start, count)` with `count <= width`, inside `0 .. len`.
pub fn gen_span(s: &mut Src, len: usize, width: usize) -> (usize, usize) {
    let count = s.size(width.min(len));
    let start = if s.prob(1, 6) { len - count } else { s.size(len - count) };
    (start, count)
}

/// A value of `k` bits.
pub fn gen_val(s: &mut Src, k: usize) -> u64 {
    if k == 0 {
        0
    } else {
        s.bits(k) & low(k)
    }
}

/// An element width for blocks of `bits` bits.
pub fn gen_width(s: &mut Src, bits: usize) -> usize {
    s.brange(1, bits as u64) as usize
}

/// As `gen_len`, but once in `den` cases beyond `max`, up to `big`.
pub fn gen_len_big(s: &mut Src, max: usize, big: usize, den: u64) -> usize {
    if s.rare(den) {
        s.label("large");
        s.brange(max as u64, big as u64) as usize
    } else {
        gen_len(s, max)
    }
}
