//! C07: Rank9 counts exactly.

use common::*;
use engine::{must_panic, Prop, Src};
use succinct::bit_vec::{BitSlice, BitVec, BitVecPush, BitVector};
use succinct::int_vec::IntVector;
use succinct::rank::{BitRankSupport, Rank9, RankSupport};
use succinct::stream::BitBuffer;

#[path = "c06.rs"]
#[allow(dead_code)]
mod c06;

pub const PROP: Prop = Prop {
    id: "C07",
    rule: "random bits (very sparse to very dense, runs, periods), length 0 to 40000 (300000 thorough) \
           with boundaries around 64, 512 and powers of two, in one of nine kinds of 64-bit store \
           (incl. user types, junk beyond the end, slices); rank of ones and zeros at every position \
           equals direct counting (one case in 1000 has a periodic pattern of up to 2^24 bits, 2^27 \
           thorough, asked at 3000 positions), positions from the length on are rejected. Non-trivial: at least \
           three basic blocks of 512 bits, and both bits occur",
    case,
    directed: &[("lengths", lengths)],
};

pub fn case(s: &mut Src) {
    if !engine::cov::instrumented() && s.prob(1, 1000) {
        let n = s.brange(1 << 18, 1 << if s.thorough { 27 } else { 24 });
        let words = c06::gen_pattern(s);
        s.note(|| format!("{} bits of period {:x?}", n, words));
        s.label("long");
        s.nontrivial();
        let r = Rank9::new(c06::Pattern::<u64>::new(n, &words));
        c06::sampled(s, &r, &c06::Pattern::<u64>::new(n, &words));
        return;
    }
    let n = c06::gen_n(s, if s.thorough { 300_000 } else { 40_000 });
    let kind = s.idx(9);
    let junk = s.word();
    let k = gen_width(s, 64);
    let len = match kind {
        0 | 1 => n / 64 * 64,
        3 => n / k * k,
        _ => n,
    };
    let m = gen_bits(s, len);
    s.note(|| format!("store kind {}, width {}, junk {:#x}, {} bits: {}", kind, k, junk, len, show(&m)));
    let blocks = || -> Vec<u64> { (0..m.len() / 64).map(|i| mblock::<u64>(&m, i)).collect() };
    let bv = || {
        let mut v: BitVector<u64> = BitVector::new();
        m.iter().for_each(|&b| v.push_bit(b));
        v
    };
    s.label_if(len >= 1536, "three basic blocks");
    s.label_if(len % 512 > 448, "last basic block nearly full");
    s.nontrivial_if(len >= 1536 && m.contains(&true) && m.contains(&false));
    match kind {
        0 => all(s, Rank9::new(blocks()), &m),
        1 => all(s, Rank9::new(&blocks()[..]), &m),
        2 => all(s, Rank9::new(bv()), &m),
        3 => {
            let mut v: IntVector<u64> = IntVector::new(k);
            (0..m.len() / k).for_each(|i| v.push(mget(&m, i * k, k)));
            all(s, Rank9::new(v), &m)
        }
        4 => all(s, Rank9::new(OnlyBits::<u64>::new(&m)), &m),
        5 => all(s, Rank9::new(OnlyBlocks::<u64>::new(&m, junk)), &m),
        6 => all(s, Rank9::new(BitBuffer::append(bv())), &m),
        7 => {
            let base = bv();
            let (a, c) = gen_span(s, len, len);
            all(s, Rank9::new(BitSlice::new(&base, a as u64..(a + c) as u64)), &m[a..a + c])
        }
        _ => {
            let base = OnlyBlocks::<u64>::new(&m, junk);
            let a = s.size(len);
            all(s, Rank9::new(BitSlice::new(&base, a as u64..)), &m[a..])
        }
    }
}

fn all<V: BitVec<Block = u64>>(s: &mut Src, r: Rank9<V>, m: &[bool]) {
    c06::ranks(&r, m);
    assert!(r.bit_len() == m.len() as u64, "bit_len of the rank structure");
    assert!(r.inner().bit_len() == m.len() as u64, "inner bit_len");
    let n = m.len() as u64;
    for p in [n, n + s.size(70) as u64, n + s.size(600) as u64, s.brange(n, u64::MAX), u64::MAX] {
        rejected(&r, p);
    }
}

fn rejected<R: BitRankSupport>(r: &R, p: u64) {
    let w = |f: &str| format!("{}({}) with limit {}", f, p, r.limit());
    must_panic(|| w("rank1"), || r.rank1(p));
    must_panic(|| w("rank0"), || r.rank0(p));
    must_panic(|| w("rank true"), || r.rank(p, true));
    must_panic(|| w("rank false"), || r.rank(p, false));
}

fn lengths() {
    for n in (0..1700).chain([65_535, 65_536, 65_537, 262_143, 1_000_003, 4_194_304 + 77]) {
        for k in 0..if n > 500_000 { 1 } else { 3 } {
            let m: Vec<bool> = (0..n).map(|i| [true, i % 7 < 3, i == n / 2][k]).collect();
            let r = Rank9::new(OnlyBlocks::<u64>::new(&m, u64::MAX));
            c06::ranks(&r, &m);
            rejected(&r, n as u64);
            rejected(&r, n as u64 + 40);
        }
    }
}
