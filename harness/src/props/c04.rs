//! C04: bit, span and block access agree on every kind of bit vector.

use common::*;
use engine::{Prop, Src};
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::int_vec::IntVector;
use succinct::rank::{JacobsonRank, Rank9};
use succinct::select::BinSearchSelect;
use succinct::stream::BitBuffer;

pub const PROP: Prop = Prop {
    id: "C04",
    rule: "random bits in one of 25 kinds of bit vector (words, arrays, slices, vectors, vectors of \
           booleans, bit and integer vectors, buffers, sub-slices, rank and select wrappers, trait \
           objects, user types giving only bits or only blocks, the latter with junk beyond the end), \
           any block type; every bit, block and (if short) every span is compared with the bits; then \
           up to 12 writes of bits, spans and blocks, compared after each. Non-trivial: more than one \
           block, or a partial last block",
    case,
    directed: &[("every write to short vectors", every_write)],
};

pub fn case(s: &mut Src) {
    with_any_block!(s, kinds(s))
}

fn kinds<B: Blk>(s: &mut Src) {
    let n = gen_len_big(s, 4000, 1 << 20, 60_000);
    let nb = (n + 1) / B::BITS;
    let junk = s.word();
    let kind = s.idx(25);
    let len = match kind {
        0 | 20 => B::BITS,
        1 | 2 | 3 | 13 | 16 | 23 => nb * B::BITS,
        _ => n,
    };
    let mut m = gen_bits(s, len);
    let blocks = |m: &[bool]| -> Vec<B> { (0..m.len() / B::BITS).map(|i| B::of(mblock::<B>(m, i))).collect() };
    let k = gen_width(s, B::BITS);
    if kind == 6 || kind == 22 {
        m.truncate(n / k * k);
    }
    s.note(|| format!("kind {} over {}, width {}, junk {:#x}: {}", kind, B::NAME, k, junk, show(&m)));
    s.nontrivial_if(m.len() > B::BITS || m.len() % B::BITS != 0);
    match kind {
        0 => {
            s.label("word");
            let mut v = B::of(mget(&m, 0, B::BITS));
            rw(s, &mut v, m)
        }
        1 => {
            s.label("[Block]");
            let mut v = blocks(&m).into_boxed_slice();
            rw::<B, [B]>(s, &mut v, m)
        }
        2 => {
            s.label("&mut [Block]");
            let mut v = blocks(&m);
            let mut v: &mut [B] = &mut v;
            rw(s, &mut v, m)
        }
        3 => {
            s.label("Vec<Block>");
            let mut v = blocks(&m);
            rw(s, &mut v, m)
        }
        4 => {
            s.label("Vec<bool>");
            let mut v = m.clone();
            rw(s, &mut v, m)
        }
        5 => {
            s.label("BitVector");
            let mut v = bv::<B>(&m);
            rw(s, &mut v, m)
        }
        6 => {
            s.label("IntVector");
            let mut v = iv::<B>(&m, k);
            rw(s, &mut v, m)
        }
        7 => {
            s.label("BitBuffer");
            let mut v = BitBuffer::from(bv::<B>(&m));
            rw(s, &mut v, m)
        }
        8 => {
            s.label("user, bits");
            let mut v = OnlyBits::<B>::new(&m);
            rw(s, &mut v, m)
        }
        9 => {
            s.label("user, blocks");
            let mut v = OnlyBlocks::<B>::new(&m, junk);
            rw(s, &mut v, m);
            v.check_junk();
        }
        10 => {
            s.label("user, both");
            let mut v = Both::<B>::new(&m);
            rw(s, &mut v, m)
        }
        11 => {
            s.label("BitBuffer");
            let mut v = BitBuffer::append(OnlyBlocks::<B>::new(&m, junk));
            rw(s, &mut v, m);
            v.into_inner().check_junk();
        }
        12 => {
            s.label("BitSliceMut");
            let (a, c) = gen_span(s, m.len(), m.len());
            let mut base = OnlyBlocks::<B>::new(&m, junk);
            {
                let mut v = BitSliceMut::new(&mut base, a as u64..(a + c) as u64);
                let mut w = m[a..a + c].to_vec();
                rw_on(s, &mut v, &mut w);
                m[a..a + c].copy_from_slice(&w);
            }
            base.check_junk();
            check_reads("base of a mutable slice", &base, &m, s);
        }
        13 => {
            s.label("&[Block]");
            let v = blocks(&m);
            let v: &[B] = &v;
            check_reads("&[Block]", &v, &m, s)
        }
        14 => {
            s.label("JacobsonRank");
            let v = JacobsonRank::new(bv::<B>(&m));
            check_reads("JacobsonRank", &v, &m, s)
        }
        15 => {
            s.label("JacobsonRank");
            let v = JacobsonRank::new(OnlyBlocks::<B>::new(&m, junk));
            check_reads("JacobsonRank", &v, &m, s)
        }
        16 => {
            s.label("BinSearchSelect");
            let v = BinSearchSelect::new(JacobsonRank::new(blocks(&m)));
            check_reads("BinSearchSelect", &v, &m, s)
        }
        17 => {
            s.label("Rank9");
            let v = Rank9::new(OnlyBlocks::<u64>::new(&m, junk));
            check_reads("Rank9", &v, &m, s)
        }
        18 => {
            s.label("Rank9");
            let v = BinSearchSelect::new(Rank9::new(bv::<u64>(&m)));
            check_reads("BinSearchSelect over Rank9", &v, &m, s)
        }
        19 => {
            s.label("BitSlice");
            let base = OnlyBits::<B>::new(&m);
            let (a, c) = gen_span(s, m.len(), m.len());
            let v = BitSlice::new(&base, a as u64..(a + c) as u64);
            check_reads("BitSlice", &v, &m[a..a + c], s)
        }
        20 => {
            s.label("BinSearchSelect");
            let v = BinSearchSelect::new(B::of(mget(&m, 0, B::BITS)));
            check_reads("BinSearchSelect over a word", &v, &m, s)
        }
        21 => {
            s.label("trait object");
            let mut v = OnlyBlocks::<B>::new(&m, junk);
            {
                let d: &mut dyn BitVecMut<Block = B> = &mut v;
                rw(s, d, m);
            }
            v.check_junk();
        }
        22 => {
            s.label("JacobsonRank");
            let v = JacobsonRank::new(iv::<B>(&m, k));
            check_reads("JacobsonRank over IntVector", &v, &m, s)
        }
        23 => {
            s.label("BitBuffer");
            let mut v = BitBuffer::from(blocks(&m));
            rw(s, &mut v, m)
        }
        _ => {
            s.label("trait object");
            let v = bv::<B>(&m);
            let d: &dyn BitVec<Block = B> = &v;
            check_reads("trait object", d, &m, s);
            let (a, c) = gen_span(s, m.len(), m.len());
            let sl = BitSlice::new(d, a as u64..(a + c) as u64);
            check_reads("slice of a trait object", &sl, &m[a..a + c], s)
        }
    }
}

fn bv<B: Blk>(m: &[bool]) -> BitVector<B> {
    let mut v = BitVector::new();
    m.iter().for_each(|&b| v.push_bit(b));
    v
}

fn iv<B: Blk>(m: &[bool], k: usize) -> IntVector<B> {
    let mut v = IntVector::new(k);
    (0..m.len() / k).for_each(|i| v.push(B::of(mget(m, i * k, k))));
    v
}

fn rw<B: Blk, V: BitVecMut<Block = B> + ?Sized>(s: &mut Src, v: &mut V, mut m: Vec<bool>) {
    rw_on(s, v, &mut m)
}

fn rw_on<B: Blk, V: BitVecMut<Block = B> + ?Sized>(s: &mut Src, v: &mut V, m: &mut Vec<bool>) {
    check_reads("before writes", v, m, s);
    let mut i = 0;
    while i < 12 && s.more(7, 8) {
        let what = write_some(v, m, s);
        check_quick(&what, v, m, s);
        i += 1;
    }
    check_reads("after writes", v, m, s);
}

/// Every bit, span and block of short vectors is written, with zeros over ones
/// and ones (also behind the span) over zeros.
fn every_write() {
    fn all<B: Blk, V: BitVecMut<Block = B> + ?Sized>(what: &str, v: &mut V, n: usize) {
        let k = B::BITS;
        let is = |v: &V, at: std::ops::Range<usize>, b: bool, op: &str| {
            let want = |i: usize| at.contains(&i) == b;
            for i in 0..n {
                assert!(v.get_bit(i as u64) == want(i), "{} over {} of {} bits, {} at {:?}: bit {} is {}", what, B::NAME, n, op, at, i, !want(i));
            }
            for i in 0..n.div_ceil(k) {
                let mut w = 0;
                (0..k.min(n - i * k)).for_each(|j| w |= (want(i * k + j) as u64) << j);
                let got = v.get_block(i).to() & low(k.min(n - i * k));
                assert!(got == w, "{} over {} of {} bits, {} at {:?}: block {} is {:#x}, expected {:#x}", what, B::NAME, n, op, at, i, got, w);
            }
        };
        for b in [true, false] {
            let w = |b: bool| B::of(if b { low(k) } else { 0 });
            for i in 0..n.div_ceil(k) {
                v.set_block(i, w(!b));
            }
            is(v, 0..0, b, "all blocks");
            for i in 0..n {
                v.set_bit(i as u64, b);
                is(v, i..i + 1, b, "set_bit");
                v.set_bit(i as u64, !b);
            }
            for i in 0..n.div_ceil(k) {
                v.set_block(i, w(b));
                is(v, i * k..n.min((i + 1) * k), b, "set_block");
                v.set_block(i, w(!b));
            }
            for start in 0..=n {
                for count in 0..=k.min(n - start) {
                    v.set_bits(start as u64, count, w(b));
                    is(v, start..start + count, b, "set_bits");
                    assert!(v.get_bits(start as u64, count).to() == if b { low(count) } else { 0 }, "{} over {} of {} bits: get_bits({}, {})", what, B::NAME, n, start, count);
                    v.set_bits(start as u64, count, w(!b));
                }
            }
            is(v, 0..0, b, "all written back");
        }
    }
    fn kinds<B: Blk>(lens: &[usize]) {
        for &n in lens {
            let m = vec![false; n];
            all("BitVector", &mut bv::<B>(&m), n);
            all("user, bits", &mut OnlyBits::<B>::new(&m), n);
            let mut v = OnlyBlocks::<B>::new(&m, u64::MAX);
            all("user, blocks", &mut v, n);
            v.check_junk();
            all("user, both", &mut Both::<B>::new(&m), n);
            all("BitBuffer", &mut BitBuffer::from(bv::<B>(&m)), n);
            for w in [1, 3, 5, 7] {
                if n % w == 0 {
                    all("IntVector", &mut iv::<B>(&m, w), n);
                }
            }
            for a in [0, 1, B::BITS - 1, B::BITS, B::BITS + 3] {
                let mut v = OnlyBlocks::<B>::new(&vec![true; n + a + 1], 0);
                all("BitSliceMut", &mut BitSliceMut::new(&mut v, a as u64..(a + n) as u64), n);
                assert!((0..a).all(|i| v.get_bit(i as u64)) && v.get_bit((a + n) as u64), "writing {}..{} of a vector changed the rest", a, a + n);
                v.check_junk();
            }
            if n % B::BITS == 0 {
                let mut v = vec![B::of(0); n / B::BITS];
                all("Vec<Block>", &mut v, n);
                all::<B, [B]>("[Block]", &mut v, n);
                let mut v: &mut [B] = &mut v;
                all("&mut [Block]", &mut v, n);
                if n == B::BITS {
                    all("word", &mut B::of(0), n);
                }
            }
        }
    }
    kinds::<u8>(&(0..28).collect::<Vec<_>>());
    for n in 0..20 {
        all("Vec<bool>", &mut vec![false; n], n);
    }
    kinds::<u16>(&[0, 1, 15, 16, 17, 30, 32, 33, 35, 48, 50]);
    kinds::<u32>(&[1, 31, 32, 33, 64, 65]);
    kinds::<u64>(&[63, 64, 65, 128, 130]);
    kinds::<usize>(&[1, 64, 127, 129]);
    kinds::<Own>(&[1, 32, 64, 65]);
}
