//! C25: 32-bit builds do what 64-bit builds do.

use common::*;
use engine::{catch, must_panic, Prop, Src};
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::broadword::Broadword;
use succinct::int_vec::{IntVec, IntVecMut, IntVector};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support};
use succinct::stream::BitBuffer;

macro_rules! props {
    ($($m:ident $file:literal $weight:literal)+) => {
        $( #[path = $file] #[allow(dead_code)] mod $m; )+
        const PROPS: &[&Prop] = &[ $( &$m::PROP ),+ ];
        const WEIGHTS: &[u32] = &[ $( $weight ),+ ];
    };
}

props! {
    c01 "c01.rs" 6
    c02 "c02.rs" 6
    c03 "c03.rs" 8
    c04 "c04.rs" 6
    c05 "c05.rs" 6
    c06 "c06.rs" 1
    c07 "c07.rs" 2
    c08 "c08.rs" 10
    c09 "c09.rs" 2
    c10 "c10.rs" 4
    c11 "c11.rs" 6
    c12 "c12.rs" 8
    c13 "c13.rs" 6
    c14 "c14.rs" 4
    c15 "c15.rs" 3
    c16 "c16.rs" 3
    c17 "c17.rs" 6
    c18 "c18.rs" 3
    c19 "c19.rs" 6
    c20 "c20.rs" 12
    c21 "c21.rs" 6
    c22 "c22.rs" 1
    c23 "c23.rs" 6
    c24 "c24.rs" 3
    c26 "c26.rs" 3
}

pub const PROP: Prop = Prop {
    id: "C25",
    rule: "in two 32-bit (i686) builds, cases of all the other properties, generated and judged as theirs \
           are; and positions that fit no usize: an index that is valid once its high bits are dropped, \
           given to every reader, writer, rank and select function, which must reject it and change \
           nothing, and sizes that need more blocks than there are, which must be rejected; computed bit \
           vectors with more blocks than a usize counts, and slices and buffers of them, where what is \
           asked for is right or rejected. Non-trivial: \
           by the other property's own rule, or an index or size beyond 2^32 given to a non-empty store",
    case,
    directed: &[("unary numbers beyond 32 bits", c23::long_unary), ("directed checks of the other properties", others)],
};

pub fn case(s: &mut Src) {
    if s.prob(1, 4) {
        s.label("beyond usize");
        return with_block!(s, wide(s));
    }
    #[cfg(target_pointer_width = "32")]
    if s.prob(1, 40) {
        use self::c23::overlong;
        s.label("more blocks than usize");
        return with_block!(s, overlong(s));
    }
    let i = s.weighted(WEIGHTS);
    let p = PROPS[i];
    s.label(p.id);
    s.note(|| format!("a case of {}", p.id));
    (p.case)(s)
}

/// `i` with something added that disappears in 32 bits, also once divided
/// by or multiplied with `unit`.
fn beyond(s: &mut Src, i: u64, unit: u64) -> u64 {
    let k = 1 + s.big((u64::MAX >> 32) / unit - 2);
    match s.idx(3) {
        0 => i + (k << 32),
        1 => i + (k << 32) * unit,
        _ => i + (1u64 << s.range(32, 62)),
    }
}

fn wide<B: Blk>(s: &mut Src) {
    let n = gen_len(s, 400);
    let m = gen_bits(s, n);
    s.note(|| format!("{} blocks, bits {}", B::NAME, show(&m)));
    s.nontrivial_if(!m.is_empty());
    match s.idx(6) {
        0 => bits::<B>(s, &m),
        1 => ints::<B>(s),
        2 => words::<B>(s),
        3 => ranks::<B>(s, &m),
        4 => sizes::<B>(s, &m),
        _ => stores::<B>(s, &m),
    }
}

/// An index, and how many bits from there; the index is too large, and
/// fine when its high bits are dropped.
fn aim<B: Blk>(s: &mut Src, n: u64) -> (u64, usize) {
    let i = s.big(n.saturating_sub(1));
    let c = s.size(B::BITS.min((n - i) as usize));
    let j = beyond(s, i, B::BITS as u64);
    s.note(|| format!("index {} (low bits {}), {} bits", j, i, c));
    (j, c)
}

fn rejects_reads<V: BitVec>(what: &str, v: &V, i: u64, c: usize) {
    must_panic(|| format!("{}: get_bit({})", what, i), || v.get_bit(i));
    must_panic(|| format!("{}: get_bits({}, {})", what, i, c), || v.get_bits(i, c));
}

fn rejects_writes<B: Blk, V: BitVecMut<Block = B>>(s: &mut Src, what: &str, v: &mut V, i: u64, c: usize) {
    let x = B::of(s.word());
    must_panic(|| format!("{}: set_bit({})", what, i), || v.set_bit(i, x.to() & 1 == 1));
    must_panic(|| format!("{}: set_bits({}, {})", what, i, c), || v.set_bits(i, c, x));
}

fn same<V: BitVec>(what: &str, v: &V, m: &[bool]) {
    assert!(v.bit_len() == m.len() as u64, "{}: the length became {}", what, v.bit_len());
    for (i, &b) in m.iter().enumerate() {
        assert!(v.get_bit(i as u64) == b, "{}: bit {} changed", what, i);
    }
}

fn on<B: Blk, V: BitVecMut<Block = B>>(s: &mut Src, what: &str, v: &mut V, m: &[bool]) {
    for _ in 0..3 {
        let (i, c) = aim::<B>(s, m.len() as u64);
        rejects_reads(what, v, i, c.max(1));
        rejects_writes(s, what, v, i, c.max(1));
        same(what, v, m);
        let (a, b) = (s.size(m.len()), s.size(m.len()));
        let (a, b) = (a.min(b) as u64, a.max(b) as u64);
        let far = beyond(s, b, B::BITS as u64);
        must_panic(|| format!("{}: slice {}..{}", what, a, far), || BitSlice::new(&*v, a..far).bit_len());
        // A slice from beyond the end is empty, or is rejected.
        let r = catch(|| BitSlice::new(&*v, far..).bit_len());
        assert!(r.clone().unwrap_or(0) == 0, "{}: slice {}.. has {:?} bits", what, far, r);
        must_panic(|| format!("{}: mutable slice {}..{}", what, a, far), || BitSliceMut::new(&mut *v, a..far).bit_len());
        {
            let x = BitSlice::new(&*v, a..b);
            if b > a {
                let (i, c) = aim::<B>(s, b - a);
                rejects_reads(what, &x, i, c.max(1));
            }
        }
        if b > a {
            let mut x = BitSliceMut::new(&mut *v, a..b);
            let (i, c) = aim::<B>(s, b - a);
            rejects_reads(what, &x, i, c.max(1));
            rejects_writes(s, what, &mut x, i, c.max(1));
        }
        same(what, v, m);
    }
}

fn bits<B: Blk>(s: &mut Src, m: &[bool]) {
    let mut v: BitVector<B> = BitVector::new();
    for &b in m {
        v.push_bit(b);
    }
    on(s, "BitVector", &mut v, m);
    let far = beyond(s, m.len() as u64, B::BITS as u64);
    v.truncate(far);
    same("BitVector truncated beyond its end", &v, m);
    let mut b = BitBuffer::from(v);
    let p = s.big(m.len() as u64);
    b.seek(p).unwrap();
    assert!(b.seek(far).is_err(), "a seek to {} of {} succeeds", far, m.len());
    assert!(b.position() == p, "a failed seek moves to {}", b.position());
    on(s, "BitBuffer", &mut b, m);
}

fn stores<B: Blk>(s: &mut Src, m: &[bool]) {
    let junk = s.word();
    match s.idx(4) {
        0 => {
            let mut v = m.to_vec();
            on_bools::<Vec<bool>>(s, "Vec<bool>", &mut v, m);
        }
        1 => {
            let nb = nblocks::<B>(m.len());
            let mut whole = m.to_vec();
            whole.resize(nb * B::BITS, false);
            let mut v: Vec<B> = (0..nb).map(|i| B::of(mblock::<B>(&whole, i))).collect();
            on(s, "Vec of blocks", &mut v, &whole);
        }
        2 => on(s, "store of bits", &mut OnlyBits::<B>::new(m), m),
        _ => on(s, "store of blocks", &mut OnlyBlocks::<B>::new(m, junk), m),
    }
}

fn on_bools<V: BitVecMut<Block = u8>>(s: &mut Src, what: &str, v: &mut V, m: &[bool]) {
    on::<u8, V>(s, what, v, m)
}

fn ints<B: Blk>(s: &mut Src) {
    let k = if s.prob(1, 3) { B::BITS } else { 1 + s.idx(B::BITS) };
    let n = s.urange(1, 60);
    s.note(|| format!("{} elements of {} bits", n, k));
    let mut v: IntVector<B> = IntVector::new(k);
    let mut m: Vec<u64> = Vec::new();
    let mut bits = Vec::new();
    for _ in 0..n {
        let x = s.bits(k);
        v.push(B::of(x));
        m.push(x);
        mpush(&mut bits, k, x);
    }
    let same_ints = |v: &IntVector<B>, what: &str| {
        assert!(v.len() == n as u64, "{}: the length became {}", what, v.len());
        for (i, &x) in m.iter().enumerate() {
            assert!(v.get(i as u64).to() == x, "{}: element {} became {:#x} (was {:#x})", what, i, v.get(i as u64).to(), x);
        }
    };
    for _ in 0..4 {
        let i = s.big(n as u64 - 1);
        let j = beyond(s, i, k as u64);
        let x = B::of(s.bits(k));
        s.note(|| format!("index {} (low bits {})", j, j & 0xFFFF_FFFF));
        must_panic(|| format!("IntVector: get({})", j), || v.get(j));
        must_panic(|| format!("IntVector: set({})", j), || v.set(j, x));
        same_ints(&v, "IntVector");
        let off = s.big(n as u64 * k as u64 - 1);
        let w = 1 + s.idx(k);
        must_panic(|| format!("get_random({}, {}, {})", off, w, j), || v.get_random(off, w, j));
        must_panic(|| format!("get_random({}, {}, 0)", j.max(1 << 33), w), || v.get_random(j.max(1 << 33), w, 0));
        let y = B::of(x.to() & low(w));
        must_panic(|| format!("set_random({}, {}, {})", off, w, j), || v.set_random(off, w, j, y));
        same_ints(&v, "IntVector");
        v.truncate(j);
        same_ints(&v, "IntVector truncated beyond its end");
    }
    on(s, "IntVector as bits", &mut v, &bits);
    same_ints(&v, "IntVector");
}

fn words<B: Blk>(s: &mut Src) {
    let x = B::of(s.word());
    s.note(|| format!("{:#x} as {}", x.to(), B::NAME));
    let m: Vec<bool> = (0..B::BITS).map(|i| x.to() >> i & 1 == 1).collect();
    let mut v = x;
    on(s, B::NAME, &mut v, &m);
    assert!(v == x, "{}: the word changed", B::NAME);
    let w = s.word();
    let r = Broadword(w);
    let i = s.below(64);
    let j = beyond(s, i, 1);
    must_panic(|| format!("Broadword: rank1({})", j), || r.rank1(j));
    must_panic(|| format!("Broadword: rank({}, true)", j), || RankSupport::rank(&r, j, true));
    assert!(r.select1(j).is_none(), "Broadword({:#x}): select1({}) is {:?}", w, j, r.select1(j));
    must_panic(|| format!("u64: rank1({})", j), || w.rank1(j));
    must_panic(|| format!("u64: rank0({})", j), || w.rank0(j));
    must_panic(|| format!("usize: rank1({})", j), || (w as usize).rank1(j));
    must_panic(|| format!("u32: rank1({})", j), || (w as u32).rank1(j));
    must_panic(|| format!("u8: rank1({})", j), || (w as u8).rank1(j));
}

fn ranks<B: Blk>(s: &mut Src, m: &[bool]) {
    let n = m.len() as u64;
    let one = m.iter().filter(|&&b| b).count() as u64;
    let zero = n - one;
    let i = s.big(n.saturating_sub(1));
    let j = beyond(s, i, B::BITS as u64);
    let (k1, k0) = (s.big(one.saturating_sub(1)), s.big(zero.saturating_sub(1)));
    let (k1, k0) = (beyond(s, k1, 1), beyond(s, k0, 1));
    s.note(|| format!("rank at {}, select of {} and {}", j, k1, k0));
    let mut v: BitVector<B> = BitVector::new();
    let mut v64: BitVector<u64> = BitVector::new();
    for &b in m {
        v.push_bit(b);
        v64.push_bit(b);
    }
    on_rank("JacobsonRank", JacobsonRank::new(v), j, k1, k0);
    on_rank("Rank9", Rank9::new(v64), j, k1, k0);
}

fn on_rank<R: BitRankSupport + RankSupport<Over = bool>>(what: &str, r: R, i: u64, k1: u64, k0: u64) {
    let (limit, x) = (r.limit(), BinSearchSelect::new(r));
    must_panic(|| format!("{}: rank1({}) of {}", what, i, limit), || x.rank1(i));
    must_panic(|| format!("{}: rank0({}) of {}", what, i, limit), || x.rank0(i));
    assert!(x.select1(k1).is_none(), "{}: select1({}) is {:?}", what, k1, x.select1(k1));
    assert!(x.select0(k0).is_none(), "{}: select0({}) is {:?}", what, k0, x.select0(k0));
}

/// Sizes that need more blocks than fit in memory, or than a usize counts.
fn sizes<B: Blk>(s: &mut Src, m: &[bool]) {
    let bytes = B::BITS as u128 / 8;
    let least = (isize::MAX as u128 / bytes + 1) * B::BITS as u128;
    if least > u64::MAX as u128 {
        return;
    }
    let least = least as u64;
    let mut v: BitVector<B> = BitVector::new();
    for &b in m {
        v.push_bit(b);
    }
    let small = s.size(2000) as u64;
    let n = match s.idx(3) {
        0 => s.brange(least, u64::MAX - 64),
        // As many blocks as are few once high bits are dropped.
        1 => small + ((1 + s.big((u64::MAX >> 32) / B::BITS as u64 - 2)) << 32) * B::BITS as u64,
        _ => least + small,
    };
    let k = s.urange(1, B::BITS);
    let e = n / k as u64 + 1;
    s.note(|| format!("{} bits, or {} elements of {}", n, e, k));
    let f = s.bool();
    must_panic(|| format!("BitVector::with_capacity({})", n), || BitVector::<B>::with_capacity(n));
    must_panic(|| format!("BitVector::with_fill({})", n), || BitVector::<B>::with_fill(n, f));
    must_panic(|| format!("BitBuffer::with_capacity({})", n), || BitBuffer::<BitVector<B>>::with_capacity(n));
    must_panic(|| format!("reserve({})", n), || v.reserve(n));
    must_panic(|| format!("reserve_exact({})", n), || v.reserve_exact(n));
    same("BitVector after rejected reservations", &v, m);
    if catch(|| v.resize(n, f)).is_ok() {
        panic!("resize to {} bits is accepted; the length is {}", n, v.bit_len());
    }
    let x = B::of(s.bits(k));
    let mut w: IntVector<B> = IntVector::new(k);
    w.push(x);
    must_panic(|| format!("IntVector::with_capacity({}, {})", k, e), || IntVector::<B>::with_capacity(k, e));
    must_panic(|| format!("IntVector::with_fill({}, {})", k, e), || IntVector::<B>::with_fill(k, e, x));
    must_panic(|| format!("IntVector reserve({})", e), || w.reserve(e));
    must_panic(|| format!("IntVector reserve_exact({})", e), || w.reserve_exact(e));
    assert!(w.len() == 1 && w.get(0) == x, "IntVector after rejected reservations");
    if catch(|| w.resize(e, x)).is_ok() {
        panic!("resize to {} elements is accepted; the length is {}", e, w.len());
    }
}

fn others() {
    for p in PROPS {
        for (name, f) in p.directed {
            if p.id == "C23" {
                continue;
            }
            if let Err(m) = catch(f) {
                panic!("{}, {}: {}", p.id, name, m);
            }
        }
    }
}
