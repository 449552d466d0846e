//! C18: out-of-range and ill-sized requests are rejected without damage.

use common::*;
use engine::{catch, must_panic, Prop, Src};
use std::fmt::Debug;
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::broadword::Broadword;
use succinct::int_vec::{IntVec, IntVecMut, IntVector};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9};
use succinct::select::BinSearchSelect;
use succinct::storage::BlockType;
use succinct::stream::BitBuffer;

pub const PROP: Prop = Prop {
    id: "C18",
    rule: "one structure (words, arrays, vectors, boolean, bit, integer vectors, buffers, slices, user types \
           with default methods, wrappers, rank structures; any block type, lengths incl. 0 and partial \
           blocks) and 4 to 12 requests on it just past its end, in the unused part of its last block, \
           near the maximum index, or where index arithmetic wraps around; each must panic and leave all \
           contents as they were; integer vectors also of impossible widths and with values too large. \
           Non-trivial: at least one request whose index is below 2^16 and one above 2^31",
    case,
    directed: &[("words", words), ("widths", widths)],
};

/// Which kinds of positions the case has used.
#[derive(Default)]
struct Used {
    near: bool,
    far: bool,
}

impl Used {
    fn see(&mut self, p: u64) -> u64 {
        self.near |= p < 1 << 16;
        self.far |= p > 1 << 31;
        p
    }
}

/// A position at or beyond `n`, for units that take `bits` bits each.
fn bad_pos(s: &mut Src, u: &mut Used, n: u64, bits: u64) -> u64 {
    let p = match s.weighted(&[3, 3, 3, 3, 3, 1]) {
        0 => n,
        1 => n + s.size(2 * 64) as u64,
        2 => u64::MAX - s.size(130) as u64,
        3 => {
            // Positions whose bit address is small after wrapping at 64 bits.
            let turn = ((1u128 << 64) / bits as u128) as u64;
            let k = s.below(4);
            turn.wrapping_mul(k + 1).wrapping_add(s.size(n as usize + 3) as u64)
        }
        4 => {
            // Positions that are small after cutting them to 32 bits.
            let k = 1 + s.big(u32::MAX as u64 - 1);
            (k << 32) + s.size(n as usize + 3) as u64
        }
        _ => s.brange(n, u64::MAX),
    };
    u.see(if p < n { n } else { p })
}

/// A span of up to a block that is not inside `n` bits.
fn bad_span(s: &mut Src, u: &mut Used, n: u64, bits: usize) -> (u64, usize) {
    let count = match s.weighted(&[8, 1, 1]) {
        0 => 1 + s.size(bits - 1),
        // Wider than any block, and still beyond the end.
        1 => bits + 1 + s.size(n as usize + 70),
        _ => usize::MAX - s.size(n as usize + 70),
    };
    let c = count as u64;
    let start = match s.idx(4) {
        // Ends beyond the end.
        0 | 1 => (n + 1).saturating_sub(c) + s.size(count.min(n as usize + 1) - 1) as u64,
        // Wraps around.
        2 => u64::MAX - s.below(c.min(1 << 20)),
        _ => bad_pos(s, u, n, 1),
    };
    (u.see(start), count)
}

fn bad_reads<B: Blk, V: BitVec<Block = B> + ?Sized>(what: &str, v: &V, n: usize, s: &mut Src, u: &mut Used) {
    let n64 = n as u64;
    match s.idx(3) {
        0 => {
            let p = bad_pos(s, u, n64, 1);
            s.note(|| format!("get_bit({})", p));
            must_panic(|| format!("{} of {} bits: get_bit({})", what, n, p), || v.get_bit(p));
        }
        1 => {
            let p = bad_pos(s, u, nblocks::<B>(n) as u64, B::BITS as u64);
            if p > usize::MAX as u64 {
                return;
            }
            s.note(|| format!("get_block({})", p));
            must_panic(|| format!("{} of {} bits: get_block({})", what, n, p), || v.get_block(p as usize));
        }
        _ => {
            let (p, c) = bad_span(s, u, n64, B::BITS);
            s.note(|| format!("get_bits({}, {})", p, c));
            must_panic(|| format!("{} of {} bits: get_bits({}, {})", what, n, p, c), || v.get_bits(p, c));
        }
    }
}

fn bad_write<B: Blk, V: BitVecMut<Block = B> + ?Sized>(what: &str, v: &mut V, n: usize, s: &mut Src, u: &mut Used) {
    let x = s.bits(B::BITS);
    match s.idx(3) {
        0 => {
            let p = bad_pos(s, u, n as u64, 1);
            s.note(|| format!("set_bit({})", p));
            must_panic(|| format!("{} of {} bits: set_bit({})", what, n, p), || v.set_bit(p, x & 1 == 1));
        }
        1 => {
            let p = bad_pos(s, u, nblocks::<B>(n) as u64, B::BITS as u64);
            if p > usize::MAX as u64 {
                return;
            }
            s.note(|| format!("set_block({}, {:#x})", p, x));
            must_panic(|| format!("{} of {} bits: set_block({})", what, n, p), || v.set_block(p as usize, B::of(x)));
        }
        _ => {
            let (p, c) = bad_span(s, u, n as u64, B::BITS);
            s.note(|| format!("set_bits({}, {}, {:#x})", p, c, x));
            must_panic(|| format!("{} of {} bits: set_bits({}, {})", what, n, p, c), || v.set_bits(p, c, B::of(x)));
        }
    }
}

/// Spans wider than a block are outside the contract; what lies outside the
/// span must not change, whatever becomes of its inside. Leaves all as it was.
fn wide<B: Blk, V: BitVecMut<Block = B> + ?Sized>(what: &str, v: &mut V, m: &[bool], s: &mut Src) {
    if m.len() <= B::BITS {
        return;
    }
    let count = B::BITS + 1 + s.size((m.len() - B::BITS - 1).min(2 * B::BITS));
    let start = s.size(m.len() - count);
    let x = s.word();
    s.note(|| format!("set_bits({}, {}, {:#x})", start, count, x));
    let _ = catch(|| v.set_bits(start as u64, count, B::of(x)));
    assert_eq!(v.bit_len(), m.len() as u64, "{}: length after set_bits({}, {})", what, start, count);
    for (i, &b) in m.iter().enumerate() {
        if i < start || i >= start + count {
            assert_eq!(v.get_bit(i as u64), b, "{} of {} bits: set_bits({}, {}) changed bit {}", what, m.len(), start, count, i);
        } else {
            v.set_bit(i as u64, b);
        }
    }
}

fn ro<B: Blk, V: BitVec<Block = B> + ?Sized>(what: &str, v: &V, m: &[bool], s: &mut Src, u: &mut Used) {
    s.note(|| format!("{}, {}: {}", what, B::NAME, show(m)));
    for _ in 0..s.urange(4, 8) {
        bad_reads(what, v, m.len(), s, u);
    }
    check_reads(what, v, m, s);
}

fn rw<B: Blk, V: BitVecMut<Block = B> + ?Sized>(what: &str, v: &mut V, m: &[bool], s: &mut Src, u: &mut Used) {
    s.note(|| format!("{}, {}: {}", what, B::NAME, show(m)));
    for _ in 0..s.urange(4, 10) {
        if s.prob(1, 3) {
            bad_reads(what, v, m.len(), s, u);
        } else if s.prob(1, 10) {
            wide(what, v, m, s);
        } else {
            bad_write(what, v, m.len(), s, u);
            check_quick(what, v, m, s);
        }
    }
    check_reads(what, v, m, s);
}

pub fn case(s: &mut Src) {
    let mut u = Used::default();
    match s.weighted(&[8, 5, 3, 3]) {
        0 => with_any_block!(s, vectors(s, &mut u)),
        1 => with_any_block!(s, ints(s, &mut u)),
        2 => with_block!(s, word(s, &mut u)),
        _ => with_any_block!(s, ranks(s, &mut u)),
    }
    s.nontrivial_if(u.near && u.far);
}

fn bitvec<B: Blk>(m: &[bool]) -> BitVector<B> {
    let mut v: BitVector<B> = BitVector::new();
    m.iter().for_each(|&b| v.push_bit(b));
    v
}

fn vectors<B: Blk>(s: &mut Src, u: &mut Used) {
    let n = gen_len_big(s, 1200, 1 << 20, 4000);
    let m = gen_bits(s, n);
    let junk = s.word();
    let full = &m[..n / B::BITS * B::BITS];
    let blocks: Vec<B> = (0..n / B::BITS).map(|i| B::of(mblock::<B>(&m, i))).collect();
    match s.idx(12) {
        0 => {
            let mut v = blocks;
            rw("Vec", &mut v, full, s, u);
            s.label("Vec")
        }
        1 => {
            let mut v = blocks;
            rw("[B]", &mut v[..], full, s, u);
            ro("&[B]", &&v[..], full, s, u);
            rw("&mut [B]", &mut &mut v[..], full, s, u);
            s.label("slices of words")
        }
        2 => {
            let mut v = m.clone();
            rw("Vec<bool>", &mut v, &m, s, u);
            s.label("Vec<bool>")
        }
        3 => {
            let mut v = bitvec::<B>(&m);
            // Leave garbage-prone storage behind the end.
            if s.bool() {
                for _ in 0..s.size(70) {
                    v.push_bit(true);
                }
                v.truncate(n as u64);
            }
            rw("BitVector", &mut v, &m, s, u);
            s.label("BitVector")
        }
        4 => {
            let mut v = BitBuffer::append(bitvec::<B>(&m));
            rw("BitBuffer", &mut v, &m, s, u);
            assert!(v.position() == n as u64, "the position of a bit buffer has moved");
            s.label("BitBuffer")
        }
        5 => {
            let mut v = OnlyBits::<B>::new(&m);
            rw("user type with bits", &mut v, &m, s, u);
            s.label("user type with bits")
        }
        6 => {
            let mut v = OnlyBlocks::<B>::new(&m, junk);
            rw("user type with blocks", &mut v, &m, s, u);
            v.check_junk();
            s.label("user type with blocks")
        }
        7 => {
            let mut v = Both::<B>::new(&m);
            ro("user type with both", &v, &m, s, u);
            rw("user type with both", &mut v, &m, s, u);
            s.label("user type with both")
        }
        8 => {
            let r = JacobsonRank::new(OnlyBlocks::<B>::new(&m, junk));
            ro("JacobsonRank", &r, &m, s, u);
            ro("select over Jacobson", &BinSearchSelect::new(r), &m, s, u);
            s.label("rank as bit vector")
        }
        9 => {
            let (a, c) = gen_span(s, n, n);
            let base = OnlyBlocks::<B>::new(&m, junk);
            let sl = BitSlice::new(&base, a as u64..(a + c) as u64);
            ro("BitSlice", &sl, &m[a..a + c], s, u);
            for _ in 0..4 {
                bad_range(s, u, n, &mut |r| drop(BitSlice::new(&base, r)), &mut |e| drop(BitSlice::new(&base, ..e)));
                bad_range(s, u, c, &mut |r| drop(sl.slice(r)), &mut |e| drop(sl.slice(..e)));
            }
            let (b, d) = gen_span(s, c, c);
            ro("BitSlice::slice", &sl.slice(b as u64..(b + d) as u64), &m[a + b..a + b + d], s, u);
            s.label("BitSlice")
        }
        10 => {
            let mut base = bitvec::<B>(&m);
            sliced(s, u, &mut base, &m);
            s.label("BitSliceMut")
        }
        _ => {
            let mut base = OnlyBits::<B>::new(&m);
            sliced(s, u, &mut base, &m);
            s.label("BitSliceMut")
        }
    }
}

fn sliced<B: Blk, V: BitVecMut<Block = B> + Clone + PartialEq + Debug>(s: &mut Src, u: &mut Used, base: &mut V, m: &[bool]) {
    let n = m.len();
    let (a, c) = gen_span(s, n, n);
    let before = base.clone();
    {
        let mut sl = BitSliceMut::new(base, a as u64..(a + c) as u64);
        rw("BitSliceMut", &mut sl, &m[a..a + c], s, u);
        for _ in 0..3 {
            bad_range(s, u, c, &mut |r| drop(sl.slice(r)), &mut |e| drop(sl.slice(..e)));
        }
        for _ in 0..3 {
            let cell = std::cell::RefCell::new(&mut sl);
            bad_range(s, u, c, &mut |r| drop(cell.borrow_mut().slice_mut(r)), &mut |e| drop(cell.borrow_mut().slice_mut(..e)));
        }
        let (b, d) = gen_span(s, c, c);
        rw("BitSliceMut::slice_mut", &mut sl.slice_mut(b as u64..(b + d) as u64), &m[a + b..a + b + d], s, u);
    }
    let cell = std::cell::RefCell::new(&mut *base);
    bad_range(s, u, n, &mut |r| drop(BitSliceMut::new(&mut **cell.borrow_mut(), r)), &mut |e| {
        drop(BitSliceMut::new(&mut **cell.borrow_mut(), ..e))
    });
    assert!(*base == before, "requests beyond a slice changed its base");
    check_reads("base", base, m, s);
}

fn bad_range(s: &mut Src, u: &mut Used, n: usize, f: &mut dyn FnMut(std::ops::Range<u64>), g: &mut dyn FnMut(u64)) {
    let start = s.size(n) as u64;
    let end = bad_pos(s, u, n as u64 + 1, 1);
    s.note(|| format!("slice {}..{} of {} bits", start, end, n));
    if s.bool() {
        must_panic(|| format!("slicing {}..{} of {} bits", start, end, n), || f(start..end));
    } else {
        must_panic(|| format!("slicing ..{} of {} bits", end, n), || g(end));
    }
}

/// Elements of the integer vector.
fn elements<B: Blk>(v: &IntVector<B>) -> Vec<u64> {
    (0..v.len()).map(|i| v.get(i).to()).collect()
}

fn ints<B: Blk>(s: &mut Src, u: &mut Used) {
    let k = gen_width(s, B::BITS);
    let n = gen_len(s, 600) / k.max(4) * 4;
    let mut m: Vec<u64> = (0..n).map(|_| gen_val(s, k)).collect();
    let mut v: IntVector<B> = IntVector::new(k);
    m.iter().for_each(|&x| v.push(B::of(x)));
    if s.bool() {
        for _ in 0..s.size(20) {
            v.push(B::of(low(k)));
        }
        v.truncate(n as u64);
    }
    s.note(|| format!("IntVector<{}> of width {}: {:?}", B::NAME, k, m));
    s.label("IntVector");
    for _ in 0..s.urange(4, 12) {
        let what = format!("IntVector<{}> of {} elements of {} bits", B::NAME, n, k);
        let n64 = m.len() as u64;
        match s.idx(9) {
            8 if k > 1 => {
                // The bit count overflows 64 bits.
                let c = s.brange(u64::MAX / k as u64 + 1, u64::MAX);
                u.see(c);
                s.note(|| format!("sizes of {}", c));
                must_panic(|| format!("{}: resize({})", what, c), || v.resize(c, B::of(0)));
                must_panic(|| format!("with_capacity({}, {})", k, c), || IntVector::<B>::with_capacity(k, c));
                must_panic(|| format!("with_fill({}, {})", k, c), || IntVector::<B>::with_fill(k, c, B::of(0)));
            }
            0 => {
                let p = bad_pos(s, u, n64, k as u64);
                s.note(|| format!("get({})", p));
                must_panic(|| format!("{}: get({})", what, p), || v.get(p));
            }
            1 => {
                let p = bad_pos(s, u, n64, k as u64);
                let x = gen_val(s, k);
                s.note(|| format!("set({}, {:#x})", p, x));
                must_panic(|| format!("{}: set({})", what, p), || v.set(p, B::of(x)));
            }
            2 => {
                let bits: Vec<bool> = m.iter().flat_map(|&x| (0..k).map(move |i| x >> i & 1 == 1)).collect();
                if s.bool() {
                    bad_reads("IntVector", &v, bits.len(), s, u);
                } else {
                    bad_write("IntVector", &mut v, bits.len(), s, u);
                }
            }
            3 => {
                // Beyond the storage by any reading of the documentation.
                let storage = (nblocks::<B>(m.len() * k) * B::BITS) as u64;
                let w = gen_width(s, B::BITS);
                let (off, i) = random_beyond(s, u, storage, w as u64);
                s.note(|| format!("get_random({}, {}, {})", off, w, i));
                must_panic(|| format!("{}: get_random({}, {}, {})", what, off, w, i), || v.get_random(off, w, i));
            }
            4 => {
                let storage = (nblocks::<B>(m.len() * k) * B::BITS) as u64;
                let w = gen_width(s, B::BITS);
                let (off, i) = random_beyond(s, u, storage, w as u64);
                let x = gen_val(s, w);
                s.note(|| format!("set_random({}, {}, {}, {:#x})", off, w, i, x));
                must_panic(|| format!("{}: set_random({}, {}, {})", what, off, w, i), || {
                    v.set_random(off, w, i, B::of(x))
                });
            }
            _ if k < B::BITS => {
                let x = s.brange(low(k) + 1, low(B::BITS));
                too_large(s, &mut v, &mut m, k, x);
                s.label("value too large");
            }
            _ => {}
        }
        assert!(v.len() == m.len() as u64, "{}: the length is {}, expected {}", what, v.len(), m.len());
        let got = elements(&v);
        assert!(got == m, "{}: elements are {:?}, expected {:?}", what, got, m);
        assert!(v.iter().map(|x| x.to()).eq(m.iter().copied()), "{}: iteration differs", what);
    }
    // Still an ordinary vector: the rejected requests left nothing behind.
    let mut w: IntVector<B> = IntVector::new(k);
    m.iter().for_each(|&x| w.push(B::of(x)));
    assert!(v == w, "after rejected requests the vector differs from a new one with its elements");
    if !m.is_empty() {
        let tail = B::BITS - (m.len() * k - 1) % B::BITS - 1;
        let last = BitVec::get_block(&v, v.block_len() - 1).to();
        assert!(tail == 0 || last >> (B::BITS - tail) == 0, "bits beyond the end are set: {:#x}", last);
    }
}

/// An offset and index of `w`-bit elements that do not lie in `storage` bits.
fn random_beyond(s: &mut Src, u: &mut Used, storage: u64, w: u64) -> (u64, u64) {
    let off = match s.idx(3) {
        0 => 0,
        1 => s.size(storage as usize + 1) as u64,
        _ => bad_pos(s, u, storage, 1),
    };
    let mut i = match s.idx(3) {
        0 => s.size((storage / w) as usize + 1) as u64,
        1 => bad_pos(s, u, storage / w, w),
        _ => {
            // The sum wraps around to an address inside.
            let back = (1u128 << 64) - off as u128;
            ((back + s.size(storage as usize) as u128) / w as u128) as u64
        }
    };
    if off as u128 + (i as u128 + 1) * w as u128 <= storage as u128 {
        i = storage / w + 1;
    }
    (u.see(off), u.see(i))
}

/// A value beyond the element width: rejected, or cut to its low bits.
fn too_large<B: Blk>(s: &mut Src, v: &mut IntVector<B>, m: &mut Vec<u64>, k: usize, x: u64) {
    let n = m.len();
    let cut = x & low(k);
    match s.idx(5) {
        0 => {
            s.note(|| format!("push({:#x})", x));
            if catch(|| v.push(B::of(x))).is_ok() {
                m.push(cut);
            }
        }
        1 if n > 0 => {
            let i = s.idx(n);
            s.note(|| format!("set({}, {:#x})", i, x));
            if catch(|| v.set(i as u64, B::of(x))).is_ok() {
                m[i] = cut;
            }
        }
        2 if n > 0 => {
            let i = s.idx(n);
            s.note(|| format!("set_random(0, {}, {}, {:#x})", k, i, x));
            if catch(|| v.set_random(0, k, i as u64, B::of(x))).is_ok() {
                m[i] = cut;
            }
        }
        3 => {
            let c = n + s.size(20);
            s.note(|| format!("resize({}, {:#x})", c, x));
            if catch(|| v.resize(c as u64, B::of(x))).is_ok() {
                m.resize(c, cut);
            }
        }
        _ => {
            let c = s.size(40);
            s.note(|| format!("with_fill({}, {}, {:#x})", k, c, x));
            if let Ok(w) = catch(|| IntVector::<B>::with_fill(k, c as u64, B::of(x))) {
                *v = w;
                *m = vec![cut; c];
            }
        }
    }
}

fn word<B: Blk>(s: &mut Src, u: &mut Used) {
    let x = s.bits(B::BITS);
    let m: Vec<bool> = (0..B::BITS).map(|i| x >> i & 1 == 1).collect();
    let mut w = B::of(x);
    rw("word", &mut w, &m, s, u);
    s.label("word");
    for _ in 0..6 {
        block_word::<B>(s, u, x);
    }
}

fn block_word<B: Blk>(s: &mut Src, u: &mut Used, x: u64) {
    let w = B::of(x);
    let v = s.bits(B::BITS);
    let cut = |p: u64| if p > usize::MAX as u64 { (p as u32).max(B::BITS as u32) as usize } else { p as usize };
    let p = cut(bad_pos(s, u, B::BITS as u64, 1));
    let (start, len) = match s.idx(3) {
        0 => {
            let start = s.size(B::BITS);
            (start, B::BITS - start + 1 + s.size(80))
        }
        1 => {
            // The sum wraps around.
            let len = 1 + s.size(B::BITS - 1);
            let start = usize::MAX - s.idx(len);
            if s.bool() { (start, len) } else { (len, start) }
        }
        _ => (p, 1 + s.size(B::BITS - 1)),
    };
    s.note(|| format!("BlockType accesses at bit {}, span {} + {}", p, start, len));
    let t = |f: &str| format!("{} of {} at {} or {} + {}", f, B::NAME, p, start, len);
    must_panic(|| t("get_bit"), || BlockType::get_bit(w, p));
    must_panic(|| t("with_bit"), || w.with_bit(p, v & 1 == 1));
    must_panic(|| t("get_bits"), || BlockType::get_bits(w, start, len));
    must_panic(|| t("with_bits"), || w.with_bits(start, len, B::of(v)));
}

fn rank_beyond<R: BitRankSupport>(what: &str, r: &R, limit: u64, s: &mut Src, u: &mut Used) {
    assert!(r.limit() == limit, "{}: limit is {}, expected {}", what, r.limit(), limit);
    for _ in 0..5 {
        let p = bad_pos(s, u, limit, 1);
        s.note(|| format!("{}: rank at {}, limit {}", what, p, limit));
        let t = |f: &str| format!("{}: {} at {} with limit {}", what, f, p, limit);
        must_panic(|| t("rank1"), || r.rank1(p));
        must_panic(|| t("rank0"), || r.rank0(p));
        must_panic(|| t("rank(true)"), || r.rank(p, true));
        must_panic(|| t("rank(false)"), || r.rank(p, false));
    }
}

fn ranks<B: Blk>(s: &mut Src, u: &mut Used) {
    s.label("rank");
    let n = gen_len_big(s, 1200, 1 << 20, 4000);
    let m = gen_bits(s, n);
    let junk = s.word();
    s.note(|| format!("rank structures on {} {}", B::NAME, show(&m)));
    let l = n as u64;
    match s.idx(5) {
        0 => rank_beyond("JacobsonRank", &JacobsonRank::new(bitvec::<B>(&m)), l, s, u),
        1 => rank_beyond("JacobsonRank of a user type", &JacobsonRank::new(OnlyBlocks::<B>::new(&m, junk)), l, s, u),
        2 => rank_beyond("Rank9", &Rank9::new(bitvec::<u64>(&m)), l, s, u),
        3 => {
            let x = BinSearchSelect::new(Rank9::new(OnlyBlocks::<u64>::new(&m, junk)));
            ro("select over Rank9", &x, &m, s, u);
            rank_beyond("select over Rank9", &x, l, s, u)
        }
        _ => {
            rank_beyond("word", &B::of(junk), B::BITS as u64, s, u);
            rank_beyond("Broadword", &Broadword(junk), 64, s, u);
            rank_beyond("select over word", &BinSearchSelect::new(B::of(junk)), B::BITS as u64, s, u);
        }
    }
}

/// Every offset and length of spans of words, and positions past the end.
fn words() {
    fn one<B: Blk>() {
        for x in [0, u64::MAX, 0x8123_4567_89AB_CDEF] {
            let w = B::of(x);
            let name = B::NAME;
            for p in (B::BITS..B::BITS + 70).chain([usize::MAX - 1, usize::MAX, 1 << 31]) {
                must_panic(|| format!("{} get_bit {}", name, p), || BlockType::get_bit(w, p));
                must_panic(|| format!("{} with_bit {}", name, p), || w.with_bit(p, true));
                must_panic(|| format!("{} rank1 {}", name, p), || w.rank1(p as u64));
                must_panic(|| format!("{} rank0 {}", name, p), || w.rank0(p as u64));
            }
            for start in 0..=B::BITS {
                for len in B::BITS - start + 1..B::BITS + 9 {
                    let t = |f: &str| format!("{} of {}: span {} + {}", f, name, start, len);
                    must_panic(|| t("get_bits"), || BlockType::get_bits(w, start, len));
                    must_panic(|| t("with_bits"), || w.with_bits(start, len, B::of(!0)));
                    must_panic(|| t("get_bits"), || BitVec::get_bits(&w, start as u64, len));
                    must_panic(|| t("set_bits"), || BitVecMut::set_bits(&mut { w }, start as u64, len, B::of(!0)));
                }
            }
        }
    }
    one::<u8>();
    one::<u16>();
    one::<u32>();
    one::<u64>();
    one::<usize>();
}

/// Element widths of zero or above the block width.
fn widths() {
    fn one<B: Blk>() {
        let bad = [0, B::BITS + 1, B::BITS + 2, 2 * B::BITS, 100, 1 << 20, usize::MAX / 2, usize::MAX - 1, usize::MAX];
        for k in bad {
            for n in [0u64, 1, 2, 3] {
                let t = |f: &str| format!("IntVector<{}>::{}, width {}, size {}", B::NAME, f, k, n);
                must_panic(|| t("new"), || IntVector::<B>::new(k));
                if k < 1 << 30 {
                    // (Larger requests may fail to allocate, which ends the process.)
                    must_panic(|| t("with_capacity"), || IntVector::<B>::with_capacity(k, n));
                }
                must_panic(|| t("block_with_capacity"), || IntVector::<B>::block_with_capacity(k, n as usize));
                must_panic(|| t("with_fill"), || IntVector::<B>::with_fill(k, n, B::of(1)));
                must_panic(|| t("block_with_fill"), || IntVector::<B>::block_with_fill(k, n as usize, B::of(1)));
            }
        }
    }
    one::<u8>();
    one::<u16>();
    one::<u32>();
    one::<u64>();
    one::<usize>();
}
