//! C26: clones are independent, and queries change nothing.

use common::*;
use engine::{catch, Prop, Src};
use std::fmt::Debug;
use succinct::bit_vec::{BitSlice, BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::int_vec::{IntVec, IntVecMut, IntVector};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::SpaceUsage;
use succinct::stream::{BitBuffer, BitRead, BitWrite};

pub const PROP: Prop = Prop {
    id: "C26",
    rule: "a family of up to five clones of one structure (bit or integer vector, bit buffer, Jacobson \
           rank, Rank9, their iterators; any block type) descending from each other, each with its own \
           model; up to 40 steps that clone, clone_from, drop, mutate one of them or query one in random \
           order with repetitions, including rejected queries; after every step every member equals its \
           model, and a member that was only queried equals its snapshot. Select structures and slices \
           get the queries only. Non-trivial: at least two clones made, and a change (or for query-only \
           structures 20 queries) after the first",
    case,
    directed: &[],
};

pub fn case(s: &mut Src) {
    match s.weighted(&[3, 3, 2, 2, 2, 3, 1, 2]) {
        0 => with_block!(s, bits(s)),
        1 => with_block!(s, ints(s)),
        2 => with_block!(s, buffer(s)),
        3 => with_block!(s, jacobson(s)),
        4 => rank9(s),
        5 => with_block!(s, select(s)),
        6 => with_block!(s, slice(s)),
        _ => with_block!(s, iters(s)),
    }
}

/// A structure with its model.
trait Thing: Clone {
    type S: Clone + Debug;
    fn it(&self) -> &Self::S;
    fn it_mut(&mut self) -> &mut Self::S;
    /// Changes the structure and the model; false if there is nothing to change.
    fn change(&mut self, s: &mut Src) -> bool;
    /// Some queries against the model.
    fn query(&self, s: &mut Src);
    /// Everything observable equals the model.
    fn check(&self, s: &mut Src, what: &str);
    /// Equal as far as the type can tell.
    fn same(a: &Self::S, b: &Self::S) -> bool;
}

fn family<T: Thing>(s: &mut Src, first: T) {
    let mut all = vec![first];
    let (mut clones, mut after) = (0, false);
    all[0].check(s, "at first");
    let w = s.swarm(&[4, 3, 4, 2, 1]);
    for _ in 0..40 {
        if !s.more(14, 15) {
            break;
        }
        let i = s.idx(all.len());
        match s.weighted(&w) {
            0 => {
                let before = all[i].it().clone();
                s.note(|| format!("query member {}", i));
                all[i].query(s);
                assert!(T::same(all[i].it(), &before), "a query changed the structure");
            }
            1 => {
                s.note(|| format!("clone member {}", i));
                let c = all[i].clone();
                assert!(T::same(c.it(), all[i].it()) && T::same(all[i].it(), c.it()), "a clone differs from its original");
                c.check(s, "a fresh clone");
                clones += 1;
                if all.len() < 5 {
                    all.push(c);
                } else {
                    all[i] = c;
                }
            }
            2 => {
                s.note(|| format!("change member {}", i));
                after |= all[i].change(s) && clones > 0;
            }
            3 => {
                let j = s.idx(all.len());
                if i != j {
                    s.note(|| format!("member {} clone_from member {}", i, j));
                    let c = all[j].clone();
                    let mut t = all[i].it().clone();
                    t.clone_from(all[j].it());
                    assert!(T::same(&t, all[j].it()), "clone_from differs from its original");
                    all[i] = c;
                    *all[i].it_mut() = t;
                    clones += 1;
                }
            }
            _ => {
                if all.len() > 1 {
                    s.note(|| format!("drop member {}", i));
                    all.remove(i);
                }
            }
        }
        for (i, t) in all.iter().enumerate() {
            s.note(|| format!("check member {}", i));
            t.check(s, "a member of the family");
        }
    }
    s.nontrivial_if(clones >= 2 && after);
}

macro_rules! lent {
    ($s:ty) => {
        type S = $s;
        fn it(&self) -> &Self::S {
            &self.v
        }
        fn it_mut(&mut self) -> &mut Self::S {
            &mut self.v
        }
    };
}

fn bit_queries<B: Blk, V: BitVec<Block = B> + ?Sized>(s: &mut Src, v: &V, m: &[bool]) {
    for _ in 0..6 {
        check_some_spans("query", v, m, s, 2);
        if !m.is_empty() {
            let i = gen_pos(s, m.len());
            assert!(v.get_bit(i as u64) == m[i], "get_bit({}) is wrong", i);
            let i = gen_pos(s, nblocks::<B>(m.len()));
            check_block("query", v, m, i);
        }
        if s.prob(1, 6) {
            let n = m.len() as u64 + s.size(70) as u64;
            assert!(catch(|| v.get_bit(n)).is_err(), "get_bit beyond the end is accepted");
            assert!(catch(|| v.get_bits(n, 1)).is_err(), "get_bits beyond the end is accepted");
        }
    }
}

#[derive(Clone)]
struct Bits<B: Blk> {
    v: BitVector<B>,
    m: Vec<bool>,
}

impl<B: Blk> Thing for Bits<B> {
    lent!(BitVector<B>);
    fn change(&mut self, s: &mut Src) -> bool {
        let (n, nb) = (self.m.len(), self.v.block_len());
        match s.idx(8) {
            0 => write_some(&mut self.v, &mut self.m, s).len() > 0 && n > 0,
            1 => {
                let b = s.bool();
                self.v.push_bit(b);
                self.m.push(b);
                true
            }
            2 => {
                assert!(self.v.pop_bit() == self.m.pop(), "pop_bit");
                n > 0
            }
            3 => {
                let (k, b) = (s.size(2 * n + 70), s.bool());
                s.note(|| format!("resize({}, {})", k, b));
                self.v.resize(k as u64, b);
                self.m.resize(k, b);
                k != n
            }
            4 => {
                let k = s.size(n);
                s.note(|| format!("truncate({})", k));
                self.v.truncate(k as u64);
                self.m.truncate(k);
                k != n
            }
            5 => {
                let x = s.bits(B::BITS);
                s.note(|| format!("push_block({:#x})", x));
                self.v.push_block(B::of(x));
                self.m.resize(nb * B::BITS, false);
                mpush(&mut self.m, B::BITS, x);
                true
            }
            6 => {
                self.v.shrink_to_fit();
                false
            }
            _ => {
                s.note(|| "clear".into());
                self.v.clear();
                self.m.clear();
                n > 0
            }
        }
    }
    fn query(&self, s: &mut Src) {
        bit_queries(s, &self.v, &self.m);
        assert!(self.v.iter().eq(self.m.iter().copied()), "iteration");
        let _ = (self.v.capacity(), self.v.block_capacity(), self.v.heap_bytes(), format!("{:b}", self.v));
        let _ = BitSlice::new(&self.v, 0..self.m.len() as u64);
    }
    fn check(&self, s: &mut Src, what: &str) {
        check_quick(what, &self.v, &self.m, s);
        assert!(self.v.iter().eq(self.m.iter().copied()), "{}: iteration differs", what);
    }
    fn same(a: &Self::S, b: &Self::S) -> bool {
        a == b && a.cmp(b) == std::cmp::Ordering::Equal
    }
}

fn bitvec<B: Blk>(m: &[bool]) -> BitVector<B> {
    let mut v = BitVector::new();
    m.iter().for_each(|&b| v.push_bit(b));
    v
}

fn gen<B: Blk>(s: &mut Src, what: &str, max: usize) -> Vec<bool> {
    let n = gen_len_big(s, max, 1 << 20, 6000);
    let m = gen_bits(s, n);
    s.note(|| format!("{} over {} blocks: {}", what, B::NAME, show(&m)));
    m
}

fn bits<B: Blk>(s: &mut Src) {
    let m = gen::<B>(s, "bit vector", 600);
    family(s, Bits { v: bitvec::<B>(&m), m })
}

#[derive(Clone)]
struct Ints<B: Blk> {
    v: IntVector<B>,
    m: Vec<bool>,
    k: usize,
}

impl<B: Blk> Thing for Ints<B> {
    lent!(IntVector<B>);
    fn change(&mut self, s: &mut Src) -> bool {
        let k = self.k;
        let n = self.m.len() / k;
        let x = gen_val(s, k);
        match s.idx(7) {
            0 if n > 0 => {
                let i = gen_pos(s, n);
                s.note(|| format!("set({}, {:#x})", i, x));
                self.v.set(i as u64, B::of(x));
                mset(&mut self.m, i * k, k, x);
                true
            }
            1 | 0 => {
                s.note(|| format!("push({:#x})", x));
                self.v.push(B::of(x));
                mpush(&mut self.m, k, x);
                true
            }
            2 => {
                s.note(|| "pop".into());
                let want = if n == 0 { None } else { Some(mget(&self.m, (n - 1) * k, k)) };
                self.m.truncate(n.saturating_sub(1) * k);
                assert!(self.v.pop().map(|x| x.to()) == want, "pop");
                n > 0
            }
            3 => {
                let c = s.size(n + n / 2 + 3);
                s.note(|| format!("resize({}, {:#x})", c, x));
                self.v.resize(c as u64, B::of(x));
                self.m.truncate(c * k);
                while self.m.len() < c * k {
                    mpush(&mut self.m, k, x);
                }
                c != n
            }
            4 => {
                write_some(&mut self.v, &mut self.m, s);
                n > 0
            }
            5 => {
                self.v.shrink_to_fit();
                false
            }
            _ => {
                s.note(|| "clear".into());
                self.v.clear();
                self.m.clear();
                n > 0
            }
        }
    }
    fn query(&self, s: &mut Src) {
        bit_queries(s, &self.v, &self.m);
        let n = self.m.len() / self.k;
        for _ in 0..6 {
            if n > 0 {
                let i = gen_pos(s, n);
                assert!(self.v.get(i as u64).to() == mget(&self.m, i * self.k, self.k), "get({})", i);
            }
            if s.prob(1, 6) {
                let i = (n + s.size(9)) as u64;
                assert!(catch(|| self.v.get(i)).is_err(), "get beyond the end is accepted");
            }
        }
        let _ = (self.v.capacity(), self.v.heap_bytes(), self.v.is_aligned(), self.v.is_block_sized());
    }
    fn check(&self, s: &mut Src, what: &str) {
        let k = self.k;
        check_quick(what, &self.v, &self.m, s);
        assert!(self.v.element_bits() == k && self.v.len() == (self.m.len() / k) as u64, "{}: length or width", what);
        let want = (0..self.m.len() / k).map(|i| mget(&self.m, i * k, k));
        assert!(self.v.iter().map(|x| x.to()).eq(want), "{}: elements differ", what);
    }
    fn same(a: &Self::S, b: &Self::S) -> bool {
        a == b && a.cmp(b) == std::cmp::Ordering::Equal
    }
}

fn ints<B: Blk>(s: &mut Src) {
    let k = gen_width(s, B::BITS);
    let mut m = gen::<B>(s, "integer vector", 600);
    m.truncate(m.len() / k * k);
    s.note(|| format!("width {}", k));
    let mut v = IntVector::new(k);
    (0..m.len() / k).for_each(|i| v.push(B::of(mget(&m, i * k, k))));
    family(s, Ints { v, m, k })
}

#[derive(Clone)]
struct Buf<B: Blk> {
    v: BitBuffer<BitVector<B>>,
    m: Vec<bool>,
    pos: usize,
}

impl<B: Blk> Thing for Buf<B> {
    lent!(BitBuffer<BitVector<B>>);
    fn change(&mut self, s: &mut Src) -> bool {
        let n = self.m.len();
        match s.idx(5) {
            0 => {
                let x = s.word();
                let k = 1 + s.size(20);
                s.note(|| format!("write {} bits of {:#x}", k, x));
                for i in 0..k {
                    let b = x >> i & 1 == 1;
                    self.v.write_bit(b).unwrap();
                    if self.pos < self.m.len() {
                        self.m[self.pos] = b;
                    } else {
                        self.m.push(b);
                    }
                    self.pos += 1;
                }
                true
            }
            1 => {
                s.note(|| "read_bit".into());
                let want = self.m.get(self.pos).copied();
                assert!(self.v.read_bit().unwrap() == want, "read_bit");
                self.pos = n.min(self.pos + 1);
                want.is_some()
            }
            2 => {
                let p = s.size(n);
                s.note(|| format!("seek({})", p));
                self.v.seek(p as u64).unwrap();
                self.pos = p;
                true
            }
            3 => {
                let p = n as u64 + 1 + s.size(40) as u64;
                assert!(self.v.seek(p).is_err(), "a seek beyond the end succeeds");
                false
            }
            _ => {
                write_some(&mut self.v, &mut self.m, s);
                n > 0
            }
        }
    }
    fn query(&self, s: &mut Src) {
        bit_queries(s, &self.v, &self.m);
        bit_queries(s, self.v.inner(), &self.m);
        assert!(self.v.position() == self.pos as u64);
    }
    fn check(&self, s: &mut Src, what: &str) {
        assert!(self.v.position() == self.pos as u64, "{}: position is {}, expected {}", what, self.v.position(), self.pos);
        check_quick(what, &self.v, &self.m, s);
        check_quick(what, self.v.inner(), &self.m, s);
    }
    fn same(a: &Self::S, b: &Self::S) -> bool {
        a.inner() == b.inner() && a.position() == b.position()
    }
}

fn buffer<B: Blk>(s: &mut Src) {
    let m = gen::<B>(s, "bit buffer", 600);
    let v = bitvec::<B>(&m);
    let app = s.bool();
    let pos = if app { m.len() } else { 0 };
    let v = if app { BitBuffer::append(v) } else { BitBuffer::from(v) };
    family(s, Buf { v, m, pos })
}

/// Rank queries in random order, some repeated, some rejected.
fn rank_queries<R: BitRankSupport>(s: &mut Src, r: &R, sum: &[u64], count: usize) {
    let n = sum.len() as u64;
    let mut p = 0;
    for _ in 0..count {
        if n > 0 {
            p = match s.idx(4) {
                0 => p,
                1 => (p + 1).min(n - 1),
                2 => s.big(n - 1),
                _ => s.below(n),
            };
            let ones = sum[p as usize];
            let zeros = p + 1 - ones;
            match s.idx(4) {
                0 => assert!(r.rank1(p) == ones, "rank1({}) is {}, expected {}", p, r.rank1(p), ones),
                1 => assert!(r.rank0(p) == zeros, "rank0({}) is {}, expected {}", p, r.rank0(p), zeros),
                2 => assert!(r.rank(p, true) == ones, "rank({}, true) is not {}", p, ones),
                _ => assert!(r.rank(p, false) == zeros, "rank({}, false) is not {}", p, zeros),
            }
        }
        if s.prob(1, 20) {
            let q = n + s.big(100);
            assert!(catch(|| r.rank1(q)).is_err(), "rank1({}) beyond {} is accepted", q, n);
        }
    }
    assert!(r.limit() == n, "limit");
}

fn sums(m: &[bool]) -> Vec<u64> {
    m.iter().scan(0, |c, &b| { *c += b as u64; Some(*c) }).collect()
}

macro_rules! ranked {
    ($name:ident, $rank:ident, $b:ty $(, $p:ident)?) => {
        #[derive(Clone)]
        struct $name$(<$p: Blk>)? {
            v: $rank<BitVector<$b>>,
            m: Vec<bool>,
            sum: Vec<u64>,
        }

        impl$(<$p: Blk>)? Thing for $name$(<$p>)? {
            lent!($rank<BitVector<$b>>);
            fn change(&mut self, s: &mut Src) -> bool {
                // Take the vector out of it, change that, make a new one.
                let mut b = Bits { v: self.v.clone().into_inner(), m: self.m.clone() };
                let r = b.change(s);
                let old = std::mem::replace(&mut self.v, $rank::new(b.v.clone()));
                check_quick("the structure replaced", &old.into_inner(), &self.m, s);
                self.sum = sums(&b.m);
                self.m = b.m;
                r
            }
            fn query(&self, s: &mut Src) {
                rank_queries(s, &self.v, &self.sum, 20);
                bit_queries(s, &self.v, &self.m);
                bit_queries(s, self.v.inner(), &self.m);
                let _ = self.v.heap_bytes();
            }
            fn check(&self, s: &mut Src, what: &str) {
                check_quick(what, &self.v, &self.m, s);
                rank_queries(s, &self.v, &self.sum, 12);
            }
            fn same(a: &Self::S, b: &Self::S) -> bool {
                a.inner() == b.inner() && a.limit() == b.limit()
                    && (0..a.limit()).step_by(7).all(|i| a.rank1(i) == b.rank1(i))
            }
        }
    };
}

ranked!(Jac, JacobsonRank, B, B);
ranked!(R9, Rank9, u64);

fn jacobson<B: Blk>(s: &mut Src) {
    let m = gen::<B>(s, "Jacobson rank", 1500);
    let v: JacobsonRank<BitVector<B>> = JacobsonRank::new(bitvec(&m));
    let sum = sums(&m);
    family(s, Jac::<B> { v, m, sum })
}

fn rank9(s: &mut Src) {
    let m = gen::<u64>(s, "Rank9", 1500);
    let sum = sums(&m);
    family(s, R9 { v: Rank9::new(bitvec(&m)), m, sum })
}

fn select<B: Blk>(s: &mut Src) {
    s.label("select");
    let m = gen::<B>(s, "select", 2000);
    if s.bool() {
        on_select(s, &BinSearchSelect::new(JacobsonRank::new(bitvec::<B>(&m))), &m)
    } else {
        on_select(s, &BinSearchSelect::new(Rank9::new(OnlyBlocks::<u64>::new(&m, u64::MAX))), &m)
    }
}

fn on_select<X: Select1Support + Select0Support + SelectSupport<Over = bool> + BitRankSupport>(s: &mut Src, x: &X, m: &[bool]) {
    let at = [false, true].map(|b| (0..m.len() as u64).filter(|&i| m[i as usize] == b).collect::<Vec<u64>>());
    let sum = sums(m);
    let mut k = 0u64;
    for _ in 0..40 {
        let b = s.bool();
        let n = at[b as usize].len() as u64;
        k = match s.idx(5) {
            0 => k,
            1 => k.saturating_add(1),
            2 => s.big(n + 2),
            3 => s.below(n + 1),
            _ => if s.prob(1, 8) { s.big(u64::MAX - 1) } else { k / 2 },
        };
        s.note(|| format!("select {} of {}", k, b));
        let want = usize::try_from(k).ok().and_then(|k| at[b as usize].get(k).copied());
        let got = match (s.bool(), b) {
            (true, true) => x.select1(k),
            (true, false) => x.select0(k),
            _ => x.select(k, b),
        };
        assert!(got == want, "select of the {}-th {} is {:?}, expected {:?}", k, b, got, want);
        if s.prob(1, 4) {
            rank_queries(s, x, &sum, 3);
        }
    }
    s.nontrivial_if(m.len() > 64);
}

fn slice<B: Blk>(s: &mut Src) {
    s.label("slice");
    let m = gen::<B>(s, "slice", 600);
    let v = bitvec::<B>(&m);
    let before = v.clone();
    let (a, c) = gen_span(s, m.len(), m.len());
    let x = BitSlice::new(&v, a as u64..(a + c) as u64);
    let y = x.clone();
    let (p, d) = gen_span(s, c, c);
    let z = y.slice(p as u64..(p + d) as u64);
    for _ in 0..4 {
        bit_queries(s, &x, &m[a..a + c]);
        bit_queries(s, &z, &m[a + p..a + p + d]);
        bit_queries(s, &y.clone(), &m[a..a + c]);
    }
    assert!(v == before, "reading slices changed the base");
    s.nontrivial_if(d > 0 && d < c);
}

fn iters<B: Blk>(s: &mut Src) {
    s.label("iterators");
    let m = gen::<B>(s, "iterators", 300);
    if s.bool() {
        let v = bitvec::<B>(&m);
        forks(s, v.iter(), m.iter().copied());
        assert!(v.iter().eq(m.iter().copied()), "iterating changed the vector");
    } else {
        let k = gen_width(s, B::BITS);
        let m: Vec<B> = (0..m.len() / k).map(|i| B::of(mget(&m, i * k, k))).collect();
        s.note(|| format!("integers of width {}", k));
        let mut v: IntVector<B> = IntVector::new(k);
        m.iter().for_each(|&x| v.push(x));
        forks(s, v.iter(), m.iter().copied());
        assert!(v.iter().eq(m.iter().copied()), "iterating changed the vector");
    }
}

fn forks<T, I, M>(s: &mut Src, a: I, m: M)
where
    T: PartialEq + Debug,
    I: Iterator<Item = T> + DoubleEndedIterator + Clone + PartialEq + Debug,
    M: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let mut all = vec![(a, m)];
    let mut after = false;
    for _ in 0..40 {
        let i = s.idx(all.len());
        match s.weighted(&[2, 2, 2, 1]) {
            0 => {
                s.note(|| format!("clone iterator {}", i));
                let c = all[i].clone();
                assert!(c.0 == all[i].0, "a clone of an iterator differs");
                if all.len() < 5 {
                    all.push(c);
                } else {
                    all[i] = c;
                }
            }
            1 => {
                s.note(|| format!("next of {}", i));
                assert!(all[i].0.next() == all[i].1.next(), "next differs");
                after |= all.len() > 2;
            }
            2 => {
                s.note(|| format!("next_back of {}", i));
                assert!(all[i].0.next_back() == all[i].1.next_back(), "next_back differs");
            }
            _ => {
                let k = s.size(all[i].1.len() + 1);
                s.note(|| format!("nth({}) of {}", k, i));
                assert!(all[i].0.nth(k) == all[i].1.nth(k), "nth differs");
            }
        }
        for (x, y) in &all {
            let n = y.len();
            assert!(x.size_hint() == (n, Some(n)), "size_hint is {:?}, expected {}", x.size_hint(), n);
        }
    }
    for (x, y) in all {
        assert!(x.eq(y), "what is left differs");
    }
    s.nontrivial_if(after);
}
