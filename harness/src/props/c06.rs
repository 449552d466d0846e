//! C06: Jacobson rank counts exactly.

use common::*;
use engine::{Prop, Src};
use succinct::bit_vec::{BitSlice, BitVec, BitVecPush, BitVector};
use succinct::int_vec::IntVector;
use succinct::rank::{BitRankSupport, JacobsonRank, RankSupport};
use succinct::stream::BitBuffer;

pub const PROP: Prop = Prop {
    id: "C06",
    rule: "random bits (very sparse to very dense, runs, periods), length 0 to 40000 (300000 thorough) \
           with boundaries around block sizes and powers of two, in one of ten kinds of store (incl. \
           user types, junk beyond the end, slices), any block type; rank of ones and zeros at every \
           position equals direct counting. Non-trivial: at least two large blocks, and both bits occur",
    case,
    directed: &[("all short", all_short), ("lengths", lengths), ("long", long_all)],
};

pub fn case(s: &mut Src) {
    if !engine::cov::instrumented() && s.prob(1, 1000) {
        let top = if s.thorough { 27 } else { 24 };
        let n = match s.bool() {
            true => s.brange(1 << 18, 1 << top),
            false => (1u64 << s.range(19, top)) + s.range(0, 130) - 65,
        };
        let words = gen_pattern(s);
        s.note(|| format!("{} bits of period {:x?}", n, words));
        s.label("long");
        s.nontrivial();
        with_block!(s, long(s, n, &words));
        return;
    }
    with_any_block!(s, stores(s))
}

/// 64-bit words to repeat, mostly dense.
pub fn gen_pattern(s: &mut Src) -> Vec<u64> {
    match s.idx(4) {
        0 => vec![u64::MAX],
        1 => (0..1 + s.size(7)).map(|_| s.word()).collect(),
        2 => (0..1 + s.size(300)).map(|_| !(s.word() & s.word() & s.word())).collect(),
        _ => {
            let (a, b) = (1 + s.size(2000), s.size(2000));
            std::iter::repeat(u64::MAX).take(a).chain(std::iter::repeat(0).take(b)).collect()
        }
    }
}

/// A pattern of words, repeated; junk beyond the end.
pub struct Pattern<'a, B> {
    n: u64,
    words: &'a [u64],
    before: Vec<u64>,
    p: std::marker::PhantomData<B>,
}

impl<'a, B: Blk> Pattern<'a, B> {
    pub fn new(n: u64, words: &'a [u64]) -> Self {
        let mut before = vec![0];
        words.iter().for_each(|w| before.push(before[before.len() - 1] + w.count_ones() as u64));
        Pattern { n, words, before, p: std::marker::PhantomData }
    }

    /// Ones at positions up to and including this one.
    pub fn rank(&self, i: u64) -> u64 {
        let (w, k) = (i / 64, self.words.len() as u64);
        let here = self.words[(w % k) as usize] & low(i as usize % 64 + 1);
        w / k * self.before[k as usize] + self.before[(w % k) as usize] + here.count_ones() as u64
    }
}

impl<'a, B: Blk> BitVec for Pattern<'a, B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.n
    }
    fn get_block(&self, i: usize) -> B {
        let start = i as u64 * B::BITS as u64;
        assert!(start < self.n, "Pattern: out of bounds");
        B::of(self.words[(start / 64 % self.words.len() as u64) as usize] >> (start % 64))
    }
}

fn long<B: Blk>(s: &mut Src, n: u64, words: &[u64]) {
    sampled(s, &JacobsonRank::new(Pattern::<B>::new(n, words)), &Pattern::<B>::new(n, words));
}

/// Rank around the ends, around block boundaries, and elsewhere.
pub fn sampled<R: BitRankSupport, B: Blk>(s: &mut Src, r: &R, m: &Pattern<B>) {
    assert!(r.limit() == m.n, "limit is {}, expected {}", r.limit(), m.n);
    for j in 0..3000 {
        let i = match j % 4 {
            _ if j < 200 => (j / 2).min(m.n - 1),
            _ if j < 400 => m.n - 1 - (j / 2).min(m.n - 1),
            0 => s.range(0, m.n - 1),
            1 => (s.range(0, m.n / 64) * 64).min(m.n - 1),
            2 => (s.range(1, m.n / 64) * 64 - 1).min(m.n - 1),
            _ => (s.range(0, m.n / 512) * 512 + 511 - s.range(0, 3)).min(m.n - 1),
        };
        let want = m.rank(i);
        let g = (r.rank1(i), r.rank0(i), r.rank(i, true), r.rank(i, false));
        let w = (want, i + 1 - want, want, i + 1 - want);
        assert!(g == w, "ranks at {} of {} are {:?}, expected {:?}", i, m.n, g, w);
    }
}

fn long_all() {
    let mut s = engine::fixed_src();
    for k in 20..26u64 {
        for d in [0, 1, 63] {
            for words in [vec![u64::MAX], vec![u64::MAX, 0, 0x5555_5555_5555_5555, 1]] {
                let n = (1u64 << k) + d + (k << (k - 5));
                long::<u64>(&mut s, n, &words);
                long::<u32>(&mut s, n, &words);
                long::<u16>(&mut s, n, &words);
                if k < 24 {
                    long::<u8>(&mut s, n, &words);
                }
            }
        }
    }
    long::<u64>(&mut s, (1 << 27) + 1, &[u64::MAX]);
}

pub fn gen_n(s: &mut Src, max: usize) -> usize {
    match s.weighted(&[4, 4, 3, 2]) {
        0 => s.size(200),
        1 => s.size(3000.min(max)),
        2 => {
            let p = 1usize << s.range(0, 63 - (max as u64).leading_zeros() as u64);
            (p + s.size(4)).saturating_sub(2).min(max)
        }
        _ => s.size(max),
    }
}

fn stores<B: Blk>(s: &mut Src) {
    let n = gen_n(s, if s.thorough { 300_000 } else { 40_000 });
    let kind = s.idx(10);
    let junk = s.word();
    let k = gen_width(s, B::BITS);
    let len = match kind {
        0 | 1 => n / B::BITS * B::BITS,
        3 => n / k * k,
        _ => n,
    };
    let m = gen_bits(s, len);
    s.note(|| format!("store kind {} over {}, width {}, junk {:#x}, {} bits: {}", kind, B::NAME, k, junk, len, show(&m)));
    let blocks = || -> Vec<B> { (0..m.len() / B::BITS).map(|i| B::of(mblock::<B>(&m, i))).collect() };
    let bv = || {
        let mut v: BitVector<B> = BitVector::new();
        m.iter().for_each(|&b| v.push_bit(b));
        v
    };
    let lg = if len < 2 { 0 } else { 64 - (len as u64 - 1).leading_zeros() as usize };
    let large = (lg * lg).max(B::BITS);
    s.label_if(len >= 2 * large, "several large blocks");
    s.label_if(len <= 1, "length 0 or 1");
    s.nontrivial_if(len >= 2 * large && m.contains(&true) && m.contains(&false));
    match kind {
        0 => all(JacobsonRank::new(blocks()), &m),
        1 => all(JacobsonRank::new(&blocks()[..]), &m),
        2 => all(JacobsonRank::new(bv()), &m),
        3 => {
            let mut v: IntVector<B> = IntVector::new(k);
            (0..m.len() / k).for_each(|i| v.push(B::of(mget(&m, i * k, k))));
            all(JacobsonRank::new(v), &m)
        }
        4 => all(JacobsonRank::new(OnlyBits::<B>::new(&m)), &m),
        5 => all(JacobsonRank::new(OnlyBlocks::<B>::new(&m, junk)), &m),
        6 => all(JacobsonRank::new(BitBuffer::append(bv())), &m),
        7 => {
            let base = bv();
            let (a, c) = gen_span(s, len, len);
            all(JacobsonRank::new(BitSlice::new(&base, a as u64..(a + c) as u64)), &m[a..a + c])
        }
        8 => {
            let base = OnlyBlocks::<B>::new(&m, junk);
            let a = s.size(len);
            all(JacobsonRank::new(BitSlice::new(&base, a as u64..)), &m[a..])
        }
        _ => all(JacobsonRank::new(JacobsonRank::new(Both::<B>::new(&m))), &m),
    }
}

pub fn all<V: BitVec>(r: JacobsonRank<V>, m: &[bool])
where
    JacobsonRank<V>: BitRankSupport + BitVec,
{
    ranks(&r, m);
    assert!(r.bit_len() == m.len() as u64, "bit_len of the rank structure");
    assert!(r.inner().bit_len() == m.len() as u64, "inner bit_len");
}

/// Rank at every position.
pub fn ranks<R: BitRankSupport>(r: &R, m: &[bool]) {
    assert!(r.limit() == m.len() as u64, "limit is {}, expected {}", r.limit(), m.len());
    let mut ones = 0;
    for i in 0..m.len() {
        ones += m[i] as u64;
        let zeros = i as u64 + 1 - ones;
        let g = r.rank1(i as u64);
        assert!(g == ones, "rank1({}) is {}, expected {} ({} bits)", i, g, ones, m.len());
        let g = r.rank0(i as u64);
        assert!(g == zeros, "rank0({}) is {}, expected {} ({} bits)", i, g, zeros, m.len());
        let g = (r.rank(i as u64, true), r.rank(i as u64, false));
        assert!(g == (ones, zeros), "rank({}, true/false) is {:?}, expected {:?}", i, g, (ones, zeros));
    }
}

/// Every bit string of up to 10 bits, in every block type.
fn all_short() {
    fn go<B: Blk>() {
        for n in 0..=10 {
            for x in 0..1u64 << n {
                let m: Vec<bool> = (0..n).map(|i| x >> i & 1 == 1).collect();
                let mut v: BitVector<B> = BitVector::new();
                m.iter().for_each(|&b| v.push_bit(b));
                all(JacobsonRank::new(v), &m);
                all(JacobsonRank::new(OnlyBlocks::<B>::new(&m, !x << n)), &m);
            }
        }
    }
    go::<u8>();
    go::<u16>();
    go::<u32>();
    go::<u64>();
    go::<usize>();
}

/// All ones, all zeros and a mixture, at every length to 1100, then larger.
fn lengths() {
    fn go<B: Blk>(n: usize) {
        for k in 0..3 {
            let m: Vec<bool> = (0..n).map(|i| [true, false, i % 7 < 3][k]).collect();
            let junk = [u64::MAX, 0x5555][n & 1];
            all(JacobsonRank::new(OnlyBlocks::<B>::new(&m, junk)), &m);
        }
    }
    for n in 0..1100 {
        match n % 5 {
            0 => go::<u8>(n),
            1 => go::<u16>(n),
            2 => go::<u32>(n),
            3 => go::<u64>(n),
            _ => go::<u8>(n),
        }
        if n < 300 {
            go::<u8>(n);
            go::<u64>(n);
        }
    }
    for n in [65_535, 65_536, 65_537, 131_073, 262_143, 1_000_003] {
        go::<u8>(n);
        go::<u16>(n);
        go::<u32>(n);
        go::<u64>(n);
    }
}
