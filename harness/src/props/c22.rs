//! C22: stacked structures and exported adapter macros are transparent.

use common::*;
use engine::{catch, Prop, Src};
use std::fmt::Debug;
use succinct::bit_vec::{BitVec, BitVecPush, BitVector};
use succinct::int_vec::IntVector;
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::stream::BitBuffer;
use succinct::{
    impl_bit_rank_support_adapter, impl_bit_vec_adapter, impl_rank_support_adapter, impl_select0_support_adapter,
    impl_select1_support_adapter, impl_select_support_adapter,
};

pub const PROP: Prop = Prop {
    id: "C22",
    rule: "a store (any kind and block type, junk beyond the end, 0 to 1500 bits) wrapped in a rank \
           structure, a select structure, a bit buffer, or user types made with every exported adapter \
           macro, stacked up to four deep, or naive rank and select structures over bits or bytes in \
           macro-made types; every length, bit, block, span, rank and select answer, inside and outside \
           the range, is compared between wrapper and inner structure; the store handed back equals the \
           original. Non-trivial: a partial last block over 64 bits and both bit values",
    case,
    directed: &[],
};

/// A user type with every adapter the library exports.
#[derive(Clone, Debug)]
struct Wrap<T> {
    tag: u8,
    field: T,
}

impl<T> Wrap<T> {
    fn new(field: T) -> Self {
        Wrap { tag: 0x5A, field }
    }
}

impl<T: BitVec> BitVec for Wrap<T> {
    impl_bit_vec_adapter!(T::Block, field);
}

impl<T: RankSupport> RankSupport for Wrap<T> {
    impl_rank_support_adapter!(T::Over, field);
}

impl<T: BitRankSupport> BitRankSupport for Wrap<T> {
    impl_bit_rank_support_adapter!(field);
}

// Both bounds, so that an adapter asking for the wrong one is a wrong answer
// and not a build failure.
impl<T: Select1Support + Select0Support> Select1Support for Wrap<T> {
    impl_select1_support_adapter!(field);
}

impl<T: Select1Support + Select0Support> Select0Support for Wrap<T> {
    impl_select0_support_adapter!(field);
}

impl<T: SelectSupport> SelectSupport for Wrap<T> {
    impl_select_support_adapter!(T::Over, field);
}

/// Answers by counting, over any alphabet.
#[derive(Clone, Debug, PartialEq)]
struct Naive<T>(Vec<T>);

impl<T: Copy + PartialEq> RankSupport for Naive<T> {
    type Over = T;
    fn rank(&self, position: u64, value: T) -> u64 {
        assert!(position < self.limit());
        self.0[..=position as usize].iter().filter(|&&x| x == value).count() as u64
    }
    fn limit(&self) -> u64 {
        self.0.len() as u64
    }
}

impl BitRankSupport for Naive<bool> {
    fn rank1(&self, position: u64) -> u64 {
        self.rank(position, true)
    }
    fn rank0(&self, position: u64) -> u64 {
        self.rank(position, false)
    }
}

impl<T: Copy + PartialEq> SelectSupport for Naive<T> {
    type Over = T;
    fn select(&self, index: u64, value: T) -> Option<u64> {
        let mut it = (0..self.0.len()).filter(|&i| self.0[i] == value);
        it.nth(usize::try_from(index).ok()?).map(|i| i as u64)
    }
}

impl Select1Support for Naive<bool> {
    fn select1(&self, index: u64) -> Option<u64> {
        self.select(index, true)
    }
}

impl Select0Support for Naive<bool> {
    fn select0(&self, index: u64) -> Option<u64> {
        self.select(index, false)
    }
}

/// Only a rank of its own; `rank0` is deliberately not the complement of
/// `rank1`, nor `rank` any of the two, so that forwarding mistakes show.
#[derive(Clone, Debug, PartialEq)]
struct Odd(u64);

impl RankSupport for Odd {
    type Over = bool;
    fn rank(&self, position: u64, value: bool) -> u64 {
        position.wrapping_mul(5) ^ self.0 ^ value as u64
    }
    fn limit(&self) -> u64 {
        self.0
    }
}

impl BitRankSupport for Odd {
    fn rank1(&self, position: u64) -> u64 {
        position.wrapping_mul(7) ^ self.0
    }
    fn rank0(&self, position: u64) -> u64 {
        position.wrapping_mul(11) ^ self.0
    }
}

impl SelectSupport for Odd {
    type Over = bool;
    fn select(&self, index: u64, value: bool) -> Option<u64> {
        Some(index.wrapping_mul(13) ^ self.0 ^ value as u64)
    }
}

impl Select1Support for Odd {
    fn select1(&self, index: u64) -> Option<u64> {
        Some(index.wrapping_mul(17) ^ self.0)
    }
}

impl Select0Support for Odd {
    fn select0(&self, index: u64) -> Option<u64> {
        Some(index.wrapping_mul(19) ^ self.0)
    }
}

/// Both answer alike, or both panic.
fn alike<T: PartialEq + Debug>(what: impl Fn() -> String, a: impl FnOnce() -> T, b: impl FnOnce() -> T) {
    match (catch(a), catch(b)) {
        (Ok(x), Ok(y)) => assert!(x == y, "{}: the wrapper gives {:?}, the inner structure {:?}", what(), x, y),
        (Err(_), Err(_)) => {}
        (x, y) => panic!("{}: the wrapper gives {:?}, the inner structure {:?}", what(), x, y),
    }
}

/// Inside answers without the cost of catching panics.
fn same<T: PartialEq + Debug>(what: impl Fn() -> String, x: T, y: T) {
    assert!(x == y, "{}: the wrapper gives {:?}, the inner structure {:?}", what(), x, y);
}

// Comparing trait objects keeps the number of copies of this code small.
fn bits<B: Blk>(s: &mut Src, name: &str, v: &dyn BitVec<Block = B>, w: &dyn BitVec<Block = B>) {
    let (n, nb) = (w.bit_len(), w.block_len());
    same(|| format!("{}: bit_len", name), v.bit_len(), n);
    same(|| format!("{}: block_len", name), v.block_len(), nb);
    for i in 0..n {
        same(|| format!("{}: get_bit({})", name, i), v.get_bit(i), w.get_bit(i));
    }
    for i in 0..nb {
        same(|| format!("{}: get_block({})", name, i), v.get_block(i).to(), w.get_block(i).to());
    }
    for _ in 0..8 {
        let (p, c) = gen_span(s, n as usize, B::BITS);
        same(|| format!("{}: get_bits({}, {})", name, p, c), v.get_bits(p as u64, c), w.get_bits(p as u64, c));
    }
    let p = n + s.size(9) as u64;
    alike(|| format!("{}: get_bit({})", name, p), || v.get_bit(p), || w.get_bit(p));
    let b = nb + s.size(2);
    alike(|| format!("{}: get_block({})", name, b), || v.get_block(b).to(), || w.get_block(b).to());
    let c = 1 + s.size(B::BITS - 1);
    let p = p.saturating_sub(s.size(c) as u64);
    alike(|| format!("{}: get_bits({}, {})", name, p, c), || v.get_bits(p, c), || w.get_bits(p, c));
}

fn rank<T: Copy + PartialEq + Debug>(name: &str, v: &dyn RankSupport<Over = T>, w: &dyn RankSupport<Over = T>, values: &[T]) {
    let n = w.limit();
    same(|| format!("{}: limit", name), v.limit(), n);
    for &x in values {
        for i in 0..n.min(3000) {
            same(|| format!("{}: rank({}, {:?})", name, i, x), v.rank(i, x), w.rank(i, x));
        }
        for i in [n, n + 1, n + 70, u64::MAX] {
            alike(|| format!("{}: rank({}, {:?})", name, i, x), || v.rank(i, x), || w.rank(i, x));
        }
    }
}

fn ranks<V: BitRankSupport, W: BitRankSupport>(name: &str, v: &V, w: &W) {
    rank(name, v, w, &[false, true]);
    bit_ranks(name, v, w)
}

fn bit_ranks(name: &str, v: &dyn BitRankSupport<Over = bool>, w: &dyn BitRankSupport<Over = bool>) {
    let n = w.limit();
    for i in 0..n.min(3000) {
        same(|| format!("{}: rank1({})", name, i), v.rank1(i), w.rank1(i));
        same(|| format!("{}: rank0({})", name, i), v.rank0(i), w.rank0(i));
    }
    for i in [n, n + 1, n + 70, u64::MAX] {
        alike(|| format!("{}: rank1({})", name, i), || v.rank1(i), || w.rank1(i));
        alike(|| format!("{}: rank0({})", name, i), || v.rank0(i), || w.rank0(i));
    }
}

fn indices(s: &mut Src, n: u64) -> Vec<u64> {
    let mut k: Vec<u64> = (0..n.min(6)).collect();
    k.extend((0..12).map(|_| s.big(n + 1)));
    k.extend([n.saturating_sub(1), n, n + 1, s.big(u64::MAX), u64::MAX]);
    k
}

fn select<T: Copy + PartialEq + Debug>(
    s: &mut Src, name: &str, v: &dyn SelectSupport<Over = T>, w: &dyn SelectSupport<Over = T>, n: u64, values: &[T],
) {
    for k in indices(s, n) {
        for &x in values {
            same(|| format!("{}: select({}, {:?})", name, k, x), v.select(k, x), w.select(k, x));
        }
    }
}

fn selects<V, W>(s: &mut Src, name: &str, v: &V, w: &W, n: u64)
where
    V: SelectSupport<Over = bool> + Select1Support + Select0Support,
    W: SelectSupport<Over = bool> + Select1Support + Select0Support,
{
    select(s, name, v, w, n, &[false, true]);
    let (v1, w1): (&dyn Select1Support, &dyn Select1Support) = (v, w);
    let (v0, w0): (&dyn Select0Support, &dyn Select0Support) = (v, w);
    bit_selects(s, name, (v1, v0), (w1, w0), n)
}

type Both<'a> = (&'a dyn Select1Support, &'a dyn Select0Support);

fn bit_selects(s: &mut Src, name: &str, v: Both, w: Both, n: u64) {
    for k in indices(s, n) {
        same(|| format!("{}: select1({})", name, k), v.0.select1(k), w.0.select1(k));
        same(|| format!("{}: select0({})", name, k), v.1.select0(k), w.1.select0(k));
    }
}

pub fn case(s: &mut Src) {
    match s.weighted(&[6, 3, 1, 1]) {
        0 => with_block!(s, stores(s)),
        1 => {
            let m = gen(s);
            let junk = s.word();
            s.note(|| format!("64-bit blocks, junk {:#x}", junk));
            s.label("Rank9");
            let store = OnlyBlocks::<u64>::new(&m, junk);
            tower(s, || Rank9::new(store.clone()), &store, |r| r.inner(), |r| r.into_inner());
            if s.bool() {
                let v = bitvec::<u64>(&m);
                tower(s, || Rank9::new(Wrap::new(v.clone())), &v, |r| &r.inner().field, |r| r.into_inner().field);
            }
        }
        2 => alphabet(s),
        _ => {
            let o = Odd(s.size(300) as u64);
            s.note(|| format!("{:?}", o));
            let w = Wrap::new(o.clone());
            let ww = Wrap::new(w.clone());
            ranks("macros over a rank of its own", &w, &o);
            ranks("macros twice", &ww, &o);
            selects(s, "macros over a select of its own", &w, &o, o.0);
            selects(s, "macros twice", &ww, &o, o.0);
            ranks("select structure over a rank of its own", &BinSearchSelect::new(o.clone()), &o);
            s.label("a rank of its own");
        }
    }
}

fn gen(s: &mut Src) -> Vec<bool> {
    let n = gen_len_big(s, 1500, 1 << 17, 1500);
    let m = gen_bits(s, n);
    s.note(|| show(&m));
    s.nontrivial_if(n > 64 && n % 64 != 0 && m.contains(&true) && m.contains(&false));
    m
}

fn bitvec<B: Blk>(m: &[bool]) -> BitVector<B> {
    let mut v: BitVector<B> = BitVector::new();
    m.iter().for_each(|&b| v.push_bit(b));
    v
}

fn stores<B: Blk>(s: &mut Src) {
    let m = gen(s);
    let junk = s.word();
    let kind = s.idx(7);
    s.note(|| format!("{} blocks, store kind {}, junk {:#x}", B::NAME, kind, junk));
    match kind {
        0 => on_store(s, bitvec::<B>(&m)),
        1 => on_store(s, OnlyBits::<B>::new(&m)),
        2 => on_store(s, OnlyBlocks::<B>::new(&m, junk)),
        3 => on_store(s, (0..m.len() / B::BITS).map(|i| B::of(mblock::<B>(&m, i))).collect::<Vec<B>>()),
        4 => {
            let k = gen_width(s, B::BITS);
            let mut v: IntVector<B> = IntVector::new(k);
            (0..m.len() / k).for_each(|i| v.push(B::of(mget(&m, i * k, k))));
            on_store(s, v)
        }
        5 => on_store(s, m),
        _ => {
            let v = OnlyBlocks::<B>::new(&m, junk);
            let b = BitBuffer::append(v.clone());
            bits(s, "bit buffer", &b, &v);
            bits(s, "macros over a bit buffer", &Wrap::new(b.clone()), &v);
            assert!(*b.inner() == v, "a bit buffer lends out something else");
            tower(s, || JacobsonRank::new(b.clone()), &v, |r| r.inner().inner(), |r| r.into_inner().into_inner());
            assert!(b.into_inner() == v, "a bit buffer hands back something else");
        }
    }
}

fn on_store<B: Blk, V: BitVec<Block = B> + Clone + PartialEq + Debug>(s: &mut Src, v: V) {
    let w = Wrap::new(v.clone());
    bits(s, "macros", &w, &v);
    let ww = Wrap::new(w.clone());
    bits(s, "macros twice", &ww, &v);
    assert!(ww.tag == 0x5A && ww.field.tag == 0x5A);
    match s.idx(3) {
        0 => tower(s, || JacobsonRank::new(v.clone()), &v, |r| r.inner(), |r| r.into_inner()),
        1 => tower(s, || JacobsonRank::new(w.clone()), &v, |r| &r.inner().field, |r| r.into_inner().field),
        _ => {
            // A rank structure over a select structure, as a bit vector.
            let make = || JacobsonRank::new(BinSearchSelect::new(JacobsonRank::new(v.clone())));
            tower(s, make, &v, |r| r.inner().inner().inner(), |r| r.into_inner().into_inner().into_inner())
        }
    }
}

/// Wrappers over the rank structure `r`, whose store is `v`.
fn tower<B: Blk, V, R>(s: &mut Src, make: impl Fn() -> R, v: &V, lend: impl Fn(&R) -> &V, give: impl Fn(R) -> V)
where
    V: BitVec<Block = B> + PartialEq + Debug,
    R: BitVec<Block = B> + BitRankSupport,
{
    let r = make();
    let n = v.bit_len();
    bits(s, "rank structure", &r, v);
    same(|| "limit of the rank structure".into(), r.limit(), n);
    assert!(lend(&r) == v, "the rank structure lends out something else");
    let x = BinSearchSelect::new(make());
    bits(s, "select structure", &x, v);
    ranks("select structure", &x, &r);
    assert!(lend(x.inner()) == v, "the select structure lends out something else");
    let w = Wrap::new(BinSearchSelect::new(make()));
    bits(s, "macros over select", &w, v);
    ranks("macros over select", &w, &r);
    selects(s, "macros over select", &w, &x, n);
    let y = BinSearchSelect::new(Wrap::new(make()));
    selects(s, "select over macros over rank", &y, &x, n);
    let z = BinSearchSelect::new(Wrap::new(Wrap::new(BinSearchSelect::new(make()))));
    bits(s, "select over macros over macros over select", &z, v);
    ranks("select over macros over macros over select", &z, &r);
    selects(s, "select over macros over macros over select", &z, &x, n);
    assert!(give(z.into_inner().field.field.into_inner()) == *v, "handed back something else");
    assert!(give(x.into_inner()) == *v, "the select structure hands back something else");
    assert!(give(r) == *v, "the rank structure hands back something else");
}

fn alphabet(s: &mut Src) {
    s.label("alphabet");
    let n = s.size(300);
    let k = s.range(1, 6);
    let text: Vec<u8> = (0..n).map(|_| b'a' + s.below(k) as u8).collect();
    s.note(|| format!("{:?}", String::from_utf8_lossy(&text)));
    let all: Vec<u8> = (b'a'..=b'a' + k as u8).collect();
    let r = Naive(text);
    let w = Wrap::new(r.clone());
    rank("macros over bytes", &w, &r, &all);
    select(s, "macros over bytes", &w, &r, n as u64, &all);
    let x = BinSearchSelect::new(w);
    rank("select over macros over bytes", &x, &r, &all);
    select(s, "select over macros over bytes", &x, &r, n as u64, &all);
    let y = Wrap::new(BinSearchSelect::new(Wrap::new(r.clone())));
    rank("macros over select over macros", &y, &r, &all);
    select(s, "macros over select over macros", &y, &r, n as u64, &all);
    assert!(x.inner().field == r && x.into_inner().field == r, "handed back something else");
    let m = gen_bits(s, n);
    let b = Naive(m);
    let w = Wrap::new(b.clone());
    ranks("macros over bits", &w, &b);
    selects(s, "macros over bits", &w, &b, n as u64);
    selects(s, "select over macros over bits", &BinSearchSelect::new(w), &b, n as u64);
}
