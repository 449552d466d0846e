use crate::{low, mblock, mget, mset, nblocks, show, Blk};
use engine::Src;
use succinct::{BitVec, BitVecMut};

/// Everything about `v` read through `BitVec` equals the model.
pub fn check_reads<B: Blk, V: BitVec<Block = B> + ?Sized>(what: &str, v: &V, m: &[bool], s: &mut Src) {
    let n = m.len();
    let nb = nblocks::<B>(n);
    let l = v.bit_len();
    assert!(l == n as u64, "{}: bit_len is {}, expected {}", what, l, n);
    let bl = v.block_len();
    assert!(bl == nb, "{}: block_len is {}, expected {} ({} bits, {})", what, bl, nb, n, B::NAME);
    for i in 0..n {
        let b = v.get_bit(i as u64);
        assert!(b == m[i], "{}: get_bit({}) is {}, expected {}", what, i, b, m[i]);
    }
    for i in 0..nb {
        check_block(what, v, m, i);
    }
    if n <= 48 {
        for start in 0..=n {
            for count in 0..=B::BITS.min(n - start) {
                check_span(what, v, m, start, count);
            }
        }
    } else {
        check_some_spans(what, v, m, s, 24);
    }
}

pub fn check_block<B: Blk, V: BitVec<Block = B> + ?Sized>(what: &str, v: &V, m: &[bool], i: usize) {
    let inside = B::BITS.min(m.len() - i * B::BITS);
    let got = v.get_block(i).to() & low(inside);
    let want = mblock::<B>(m, i);
    assert!(got == want, "{}: get_block({}) is {:#x}, expected {:#x} (low {} bits)", what, i, got, want, inside);
}

pub fn check_span<B: Blk, V: BitVec<Block = B> + ?Sized>(what: &str, v: &V, m: &[bool], start: usize, count: usize) {
    let got = v.get_bits(start as u64, count).to();
    let want = mget(m, start, count);
    assert!(
        got == want,
        "{}: get_bits({}, {}) is {:#x}, expected {:#x} of {} bits",
        what, start, count, got, want, m.len()
    );
}

pub fn check_some_spans<B: Blk, V: BitVec<Block = B> + ?Sized>(what: &str, v: &V, m: &[bool], s: &mut Src, k: usize) {
    for _ in 0..k {
        let (start, count) = crate::gen_span(s, m.len(), B::BITS);
        check_span(what, v, m, start, count);
    }
    let n = m.len();
    check_span(what, v, m, n, 0);
    let c = B::BITS.min(n);
    check_span(what, v, m, n - c, c);
}

/// A cheap check after each step of a history.
pub fn check_quick<B: Blk, V: BitVec<Block = B> + ?Sized>(what: &str, v: &V, m: &[bool], s: &mut Src) {
    let n = m.len();
    let l = v.bit_len();
    assert!(l == n as u64, "{}: bit_len is {}, expected {}", what, l, n);
    let nb = nblocks::<B>(n);
    let bl = v.block_len();
    assert!(bl == nb, "{}: block_len is {}, expected {} ({} bits, {})", what, bl, nb, n, B::NAME);
    if n <= 160 {
        for i in 0..n {
            let b = v.get_bit(i as u64);
            assert!(b == m[i], "{}: get_bit({}) is {}, expected {}; should hold {}", what, i, b, m[i], show(m));
        }
    }
    if n > 0 {
        for i in [0, n / 2, n.saturating_sub(B::BITS + 1), n - 1] {
            let b = v.get_bit(i as u64);
            assert!(b == m[i], "{}: get_bit({}) is {}, expected {} of {} bits", what, i, b, m[i], n);
        }
        check_block(what, v, m, nb - 1);
        check_block(what, v, m, nb / 2);
    }
    for _ in 0..2 {
        let (start, count) = crate::gen_span(s, n, B::BITS);
        check_span(what, v, m, start, count);
    }
}

/// One random write through `BitVecMut`, applied to the model too.
/// Values wider than the span must be cut to it.
pub fn write_some<B: Blk, V: BitVecMut<Block = B> + ?Sized>(v: &mut V, m: &mut [bool], s: &mut Src) -> String {
    let n = m.len();
    match s.idx(3) {
        0 if n > 0 => {
            let i = crate::gen_pos(s, n);
            let b = s.bool();
            s.note(|| format!("set_bit({}, {})", i, b));
            v.set_bit(i as u64, b);
            m[i] = b;
            "set_bit".to_string()
        }
        1 if n > 0 => {
            let i = crate::gen_pos(s, nblocks::<B>(n));
            let w = s.bits(B::BITS);
            s.note(|| format!("set_block({}, {:#x})", i, w));
            v.set_block(i, B::of(w));
            let a = i * B::BITS;
            mset(m, a, B::BITS.min(n - a), w);
            "set_block".to_string()
        }
        _ => {
            let (start, count) = crate::gen_span(s, n, B::BITS);
            let w = s.bits(B::BITS);
            s.note(|| format!("set_bits({}, {}, {:#x})", start, count, w));
            v.set_bits(start as u64, count, B::of(w));
            mset(m, start, count, w);
            "set_bits".to_string()
        }
    }
}
