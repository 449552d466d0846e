//! C05: a bit slice is a window onto its base.

use common::*;
use engine::{catch, must_panic, Prop, Src};
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecMut, BitVecPush, BitVector, IntoRange};
use succinct::int_vec::IntVector;
use succinct::storage::BlockType;

pub const PROP: Prop = Prop {
    id: "C05",
    rule: "a random base (words, vectors, user types with junk beyond the end, trait objects; any block \
           type), sliced up to 4 times in all four range forms, directly or through another slice, \
           immutably or mutably; every bit, block and span of the window is compared, writes are \
           compared with the whole base, and ranges ending beyond the window must be rejected; \
           ranges that end before they begin give an empty slice or are rejected. \
           Non-trivial: a non-empty window that starts off a block boundary or is nested",
    case,
    directed: &[("range forms", range_forms), ("every window of short vectors", every_window)],
};

pub fn case(s: &mut Src) {
    with_any_block!(s, bases(s))
}

fn bases<B: Blk>(s: &mut Src) {
    let n = gen_len_big(s, 3000, 1 << 20, 60_000);
    let whole = n / B::BITS * B::BITS;
    let junk = s.word();
    let kind = s.idx(9);
    let k = gen_width(s, B::BITS);
    let len = match kind {
        0 => B::BITS,
        1 | 2 => whole,
        6 => n / k * k,
        _ => n,
    };
    let m = gen_bits(s, len);
    let blocks = || -> Vec<B> { (0..m.len() / B::BITS).map(|i| B::of(mblock::<B>(&m, i))).collect() };
    s.note(|| format!("base kind {} over {}, width {}, junk {:#x}: {}", kind, B::NAME, k, junk, show(&m)));
    match kind {
        0 => both(s, &mut B::of(mget(&m, 0, B::BITS)), m),
        1 => both::<B, [B]>(s, &mut blocks().into_boxed_slice(), m),
        2 => both(s, &mut blocks(), m),
        3 => both(s, &mut m.clone(), m),
        4 => both(s, &mut OnlyBits::<B>::new(&m), m),
        5 => {
            let mut b = OnlyBlocks::<B>::new(&m, junk);
            both(s, &mut b, m);
            b.check_junk();
        }
        6 => {
            let mut v: IntVector<B> = IntVector::new(k);
            (0..m.len() / k).for_each(|i| v.push(B::of(mget(&m, i * k, k))));
            both(s, &mut v, m)
        }
        7 => {
            let mut b = OnlyBlocks::<B>::new(&m, junk);
            let d: &mut dyn BitVecMut<Block = B> = &mut b;
            both(s, d, m)
        }
        _ => {
            let mut v: BitVector<B> = BitVector::new();
            m.iter().for_each(|&b| v.push_bit(b));
            both(s, &mut v, m)
        }
    }
}

fn both<B: Blk, V: BitVecMut<Block = B> + ?Sized>(s: &mut Src, v: &mut V, mut m: Vec<bool>) {
    if s.bool() {
        s.label("immutable");
        read_chain(s, &*v, &m)
    } else {
        s.label("mutable");
        let r = gen_range(s, m.len());
        reject_new_mut(s, v, m.len());
        write_chain(s, v, &mut m, r);
        check_reads("base", v, &m, s);
    }
}

#[derive(Clone, Copy, Debug)]
enum R {
    Full,
    To(u64),
    From(u64),
    Range(u64, u64),
}

impl R {
    fn ends(self, len: usize) -> (usize, usize) {
        match self {
            R::Full => (0, len),
            R::To(e) => (0, e as usize),
            R::From(a) => (a as usize, len),
            R::Range(a, b) => (a as usize, b as usize),
        }
    }
}

fn gen_range(s: &mut Src, len: usize) -> R {
    let (a, c) = gen_span(s, len, len);
    match s.weighted(&[1, 2, 2, 5]) {
        0 => R::Full,
        1 => R::To(c as u64),
        2 => R::From(a as u64),
        _ => R::Range(a as u64, (a + c) as u64),
    }
}

macro_rules! ranged {
    ($r:expr, $x:ident => $e:expr) => {
        match $r {
            R::Full => {
                let $x = ..;
                $e
            }
            R::To(b) => {
                let $x = ..b;
                $e
            }
            R::From(a) => {
                let $x = a..;
                $e
            }
            R::Range(a, b) => {
                let $x = a..b;
                $e
            }
        }
    };
}

fn read_chain<B: Blk, V: BitVec<Block = B> + ?Sized>(s: &mut Src, v: &V, m: &[bool]) {
    let r = gen_range(s, m.len());
    let e = beyond(s, m.len());
    must_panic(|| format!("BitSlice::new(.., ..{}) of {} bits", e, m.len()), || BitSlice::new(v, ..e));
    must_panic(|| format!("BitSlice::new(.., 0..{}) of {} bits", e, m.len()), || BitSlice::new(v, 0..e));
    let h = inverted(s, m.len());
    hollow(&h, m.len(), || ranged!(h, x => BitSlice::new(v, x)));
    let (mut a, mut b) = r.ends(m.len());
    s.note(|| format!("slice {:?}", r));
    let mut sl = ranged!(r, x => BitSlice::new(v, x));
    check_reads("slice", &sl, &m[a..b], s);
    let mut depth = 1;
    while depth < 4 && s.more(2, 3) {
        let len = b - a;
        let e = beyond(s, len);
        must_panic(|| format!("slice(..{}) of a slice of {} bits", e, len), || sl.slice(..e));
        must_panic(|| format!("slice({}..{}) of a slice of {} bits", len, e, len), || sl.slice(len as u64..e));
        let h = inverted(s, len);
        hollow(&h, len, || ranged!(h, x => sl.slice(x)));
        let r = gen_range(s, len);
        let (p, q) = r.ends(len);
        if s.prob(1, 3) {
            s.note(|| format!("slice over the slice {:?}", r));
            let over = ranged!(r, x => BitSlice::new(&sl, x));
            check_reads("slice over a slice", &over, &m[a + p..a + q], s);
        }
        s.note(|| format!("sub-slice {:?}", r));
        sl = ranged!(r, x => sl.slice(x));
        b = a + q;
        a += p;
        let copy = sl.slice(..);
        check_reads("sub-slice", &copy, &m[a..b], s);
        depth += 1;
    }
    s.label_if(a == b, "empty");
    s.nontrivial_if(b > a && (a % B::BITS != 0 || depth > 1));
}

/// A range that ends before it begins, or, when open, begins beyond the end:
/// it has no elements, and so must be an empty slice or rejected.
fn inverted(s: &mut Src, len: usize) -> R {
    if s.bool() {
        return R::From(beyond(s, len));
    }
    let end = s.size(len);
    R::Range(beyond(s, end), end as u64)
}

fn hollow<V: BitVec>(r: &R, len: usize, make: impl FnOnce() -> V) {
    let Ok(v) = catch(make) else { return };
    let n = (v.bit_len(), v.block_len());
    assert!(n == (0, 0), "slice {:?} of {} bits has {:?} bits and blocks", r, len, n);
    must_panic(|| format!("bit 0 of slice {:?} of {} bits", r, len), || v.get_bit(0));
    must_panic(|| format!("a bit from slice {:?} of {} bits", r, len), || v.get_bits(0, 1));
    must_panic(|| format!("block 0 of slice {:?} of {} bits", r, len), || v.get_block(0));
}

fn hollow_mut<B: Blk, V: BitVecMut<Block = B>>(r: &R, len: usize, make: impl FnOnce() -> V) {
    let Ok(mut v) = catch(make) else { return };
    let n = (v.bit_len(), v.block_len());
    assert!(n == (0, 0), "mutable slice {:?} of {} bits has {:?} bits and blocks", r, len, n);
    must_panic(|| format!("set bit 0 of slice {:?} of {} bits", r, len), || v.set_bit(0, true));
    must_panic(|| format!("set a bit from slice {:?} of {} bits", r, len), || v.set_bits(0, 1, B::of(1)));
    must_panic(|| format!("set block 0 of slice {:?} of {} bits", r, len), || v.set_block(0, B::of(1)));
}

/// A position beyond `len`: just beyond, in the base, or huge.
fn beyond(s: &mut Src, len: usize) -> u64 {
    match s.idx(4) {
        0 => len as u64 + 1,
        1 => len as u64 + 1 + s.size(200) as u64,
        2 => u64::MAX,
        _ => s.brange(len as u64 + 1, u64::MAX),
    }
}

fn reject_new_mut<B: Blk, V: BitVecMut<Block = B> + ?Sized>(s: &mut Src, v: &mut V, len: usize) {
    let e = beyond(s, len);
    must_panic(|| format!("BitSliceMut::new(.., ..{}) of {} bits", e, len), || BitSliceMut::new(&mut *v, ..e).bit_len());
    must_panic(|| format!("BitSliceMut::new(.., 0..{}) of {} bits", e, len), || BitSliceMut::new(&mut *v, 0..e).bit_len());
    let h = inverted(s, len);
    hollow_mut(&h, len, || ranged!(h, x => BitSliceMut::new(&mut *v, x)));
}

fn write_chain<B: Blk, V: BitVecMut<Block = B> + ?Sized>(s: &mut Src, v: &mut V, m: &mut [bool], r: R) {
    let (a, b) = r.ends(m.len());
    s.note(|| format!("mutable slice {:?}", r));
    let mut sl = ranged!(r, x => BitSliceMut::new(v, x));
    writes(s, &mut sl, &mut m[a..b]);
    s.nontrivial_if(b > a && a % B::BITS != 0);
    if s.more(1, 2) {
        let len = b - a;
        let e = beyond(s, len);
        must_panic(|| format!("slice_mut(..{}) of a slice of {} bits", e, len), || sl.slice_mut(..e).bit_len());
        must_panic(|| format!("slice({}..{}) of a mutable slice of {} bits", len, e, len), || sl.slice(len as u64..e));
        let h = inverted(s, len);
        hollow(&h, len, || ranged!(h, x => sl.slice(x)));
        hollow_mut(&h, len, || ranged!(h, x => sl.slice_mut(x)));
        let r = gen_range(s, len);
        let (p, q) = r.ends(len);
        {
            let part = ranged!(r, x => sl.slice(x));
            check_reads("immutable part of a mutable slice", &part, &m[a + p..a + q], s);
        }
        s.note(|| format!("mutable sub-slice {:?}", r));
        {
            let mut part = ranged!(r, x => sl.slice_mut(x));
            writes(s, &mut part, &mut m[a + p..a + q]);
            if s.bool() {
                let r2 = gen_range(s, q - p);
                let (p2, q2) = r2.ends(q - p);
                s.note(|| format!("mutable sub-sub-slice {:?}", r2));
                let mut part2 = ranged!(r2, x => part.slice_mut(x));
                writes(s, &mut part2, &mut m[a + p + p2..a + p + q2]);
            }
            if s.prob(1, 3) {
                let r2 = gen_range(s, q - p);
                let (p2, q2) = r2.ends(q - p);
                s.note(|| format!("mutable slice over the mutable sub-slice {:?}", r2));
                let mut part2 = ranged!(r2, x => BitSliceMut::new(&mut part, x));
                writes(s, &mut part2, &mut m[a + p + p2..a + p + q2]);
            }
        }
        s.nontrivial_if(q > p);
        check_reads("slice after writing its parts", &sl, &m[a..b], s);
    }
}

fn writes<B: Blk, V: BitVecMut<Block = B>>(s: &mut Src, v: &mut V, m: &mut [bool]) {
    check_reads("mutable slice", v, m, s);
    let mut i = 0;
    while i < 6 && s.more(4, 5) {
        let what = write_some(v, m, s);
        check_quick(&what, v, m, s);
        i += 1;
    }
}

fn range_forms() {
    for a in 0..20u64 {
        for b in a..20 {
            assert!((3..9).into_range(a, b) == (3..9));
            assert!((..9).into_range(a, b) == (a..9));
            assert!((3..).into_range(a, b) == (3..b));
            assert!((..).into_range(a, b) == (a..b));
        }
    }
    let _ = u8::nbits();
}

/// Every window of short vectors, and every window of some of these.
fn every_window() {
    fn reads<B: Blk, V: BitVec<Block = B> + ?Sized>(v: &V, m: &[bool], at: (usize, usize)) {
        let n = m.len();
        assert!(v.bit_len() == n as u64, "window {:?} has {} bits", at, v.bit_len());
        assert!(v.block_len() == n.div_ceil(B::BITS), "window {:?} has {} blocks", at, v.block_len());
        for i in 0..n {
            assert!(v.get_bit(i as u64) == m[i], "window {:?}: bit {}", at, i);
        }
        for i in 0..n.div_ceil(B::BITS) {
            check_block("window", v, m, i);
        }
        let ends = [0, 1, 2, B::BITS / 2, B::BITS - 1, B::BITS];
        for start in 0..=n {
            for &count in &ends {
                if start + count <= n {
                    check_span("window", v, m, start, count);
                }
            }
            check_span("window", v, m, start, B::BITS.min(n - start));
        }
    }
    fn go<B: Blk>(n: usize, step: usize) {
        let m: Vec<bool> = (0..n).map(|i| (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 62 & 1 == 1).collect();
        let v = OnlyBlocks::<B>::new(&m, u64::MAX);
        let mut w: BitVector<B> = BitVector::new();
        m.iter().for_each(|&b| w.push_bit(b));
        for a in 0..=n {
            for b in a..=n {
                let x = BitSlice::new(&v, a as u64..b as u64);
                reads(&x, &m[a..b], (a, b));
                reads(&BitSlice::new(&w, a as u64..b as u64), &m[a..b], (a, b));
                let l = b - a;
                for (c, d) in [(0, l), (l / 2, l), (1.min(l), l), (B::BITS.min(l), l), (0, l / 2), (l / 3, l - l / 3)] {
                    let y = x.slice(c as u64..d as u64);
                    assert!(y.bit_len() == (d - c) as u64, "slice {}..{} of window {}..{}", c, d, a, b);
                    for i in 0..d - c {
                        assert!(y.get_bit(i as u64) == m[a + c + i], "slice {}..{} of window {}..{}: bit {}", c, d, a, b, i);
                    }
                    for i in 0..(d - c).div_ceil(B::BITS) {
                        check_block("slice of a window", &y, &m[a + c..a + d], i);
                    }
                }
                // Whole blocks and the ends are flipped through the window.
                let mut m2 = m.clone();
                let mut z = BitSliceMut::new(&mut w, a as u64..b as u64);
                for i in (0..l.div_ceil(B::BITS)).step_by(step) {
                    z.set_block(i, B::of(!z.get_block(i).to() & low(B::BITS)));
                    (a + i * B::BITS..b.min(a + (i + 1) * B::BITS)).for_each(|j| m2[j] ^= true);
                }
                for (i, c) in [(0, l.min(3)), (l - l.min(3), l.min(3)), (l / 2, (l - l / 2).min(B::BITS))] {
                    let old = z.get_bits(i as u64, c).to();
                    z.set_bits(i as u64, c, B::of(!old & low(B::BITS)));
                    (a + i..a + i + c).for_each(|j| m2[j] ^= true);
                }
                for i in 0..n {
                    assert!(w.get_bit(i as u64) == m2[i], "writes through window {}..{} of {} bits: bit {}", a, b, n, i);
                }
                for i in 0..nblocks::<B>(n) {
                    w.set_block(i, B::of(mblock::<B>(&m, i)));
                }
            }
        }
    }
    (0..48).for_each(|n| go::<u8>(n, 1));
    [15, 16, 17, 33, 50].iter().for_each(|&n| go::<u16>(n, 2));
    [31, 32, 65].iter().for_each(|&n| go::<u32>(n, 1));
    [64, 65, 129, 200, 257].iter().for_each(|&n| go::<u64>(n, 2));
    go::<usize>(66, 1);
    go::<Own>(66, 1);
}
