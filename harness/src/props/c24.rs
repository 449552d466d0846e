//! C24: queries stay cheap, and rank structures small.

use common::*;
use engine::{Prop, Src};
use std::cell::{Cell, RefCell};
use succinct::bit_vec::BitVec;
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};

pub const PROP: Prop = Prop {
    id: "C24",
    rule: "an instrumented store of computed bits (any block type, several densities, length up to 2^21, \
           2^27 in fixed scenarios) under Jacobson rank and Rank9: reads per block while building, blocks \
           and reads per rank query, bytes added, rank queries per select; and select over computed rank \
           functions of any length to 2^64-1. Bounds: 8 + width reads of a block while building; 10 \
           blocks and 16 + width reads per rank; 4 lg n + 16 rank queries per select; n/32 + 512 bytes \
           for Rank9; 3n/lg n + 2 (2 + lg(lg^2 n + width)) bits per block + 4096 bits for Jacobson. Non-trivial: over \
           4096 bits, or a computed rank function",
    case,
    directed: &[("long", long)],
};

pub struct Counted<B> {
    n: u64,
    shape: u64,
    seed: u64,
    per_block: RefCell<Vec<u32>>,
    log: RefCell<Vec<usize>>,
    building: Cell<bool>,
    p: std::marker::PhantomData<B>,
}

impl<B: Blk> Counted<B> {
    fn new(n: u64, shape: u64, seed: u64) -> Self {
        let nb = nblocks::<B>(n as usize);
        Counted {
            n,
            shape,
            seed,
            per_block: RefCell::new(vec![0; nb]),
            log: RefCell::new(Vec::with_capacity(256)),
            building: Cell::new(true),
            p: std::marker::PhantomData,
        }
    }

    fn word(&self, i: usize) -> u64 {
        let mut h = (i as u64 ^ self.seed).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        h ^= h >> 32;
        match self.shape {
            0 => h,
            1 => 0,
            2 => u64::MAX,
            3 => h & h >> 7 & h >> 13 & h >> 17,
            _ => if h & 0xFF == 0 { 1 } else { 0 },
        }
    }

    fn seen(&self, i: usize) {
        assert!(i < nblocks::<B>(self.n as usize), "Counted: out of bounds");
        if self.building.get() {
            let mut v = self.per_block.borrow_mut();
            v[i] += 1;
            assert!(v[i] <= 8 + B::BITS as u32, "block {} is read over {} times while building", i, v[i] - 1);
        } else {
            let mut v = self.log.borrow_mut();
            v.push(i);
            assert!(v.len() <= 16 + B::BITS, "one query reads the store over {} times", v.len() - 1);
        }
    }

    fn reset(&self) {
        self.building.set(false);
        self.log.borrow_mut().clear();
    }

    fn blocks_read(&self) -> usize {
        let mut v = self.log.borrow_mut();
        v.sort();
        v.dedup();
        v.len()
    }
}

/// A store that borrows the instrumented one.
struct By<'a, B>(&'a Counted<B>);

impl<'a, B: Blk> BitVec for By<'a, B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.0.n
    }
    fn get_block(&self, i: usize) -> B {
        self.0.seen(i);
        B::of(self.0.word(i))
    }
    fn get_bit(&self, i: u64) -> bool {
        assert!(i < self.0.n, "Counted: out of bounds");
        let b = B::BITS as u64;
        self.0.seen((i / b) as usize);
        self.0.word((i / b) as usize) >> (i % b) & 1 == 1
    }
}

pub fn case(s: &mut Src) {
    match s.weighted(&[3, 1, 2]) {
        0 => with_block!(s, jacobson(s)),
        1 => {
            let (n, shape, seed) = gen(s, 64);
            rank9(s, n, shape, seed);
        }
        _ => virtual_rank(s),
    }
}

fn gen(s: &mut Src, _w: usize) -> (u64, u64, u64) {
    let n = match s.weighted(&[30, 30, 4, 1]) {
        0 => s.size(4000),
        1 => s.size(40_000),
        2 => s.size(300_000),
        _ => s.size(1 << 21),
    } as u64;
    let (shape, seed) = (s.below(5), s.draw(u64::MAX, |r| r.next()));
    s.note(|| format!("{} computed bits, shape {}, seed {:#x}", n, shape, seed));
    s.nontrivial_if(n > 4096);
    (n, shape, seed)
}

fn jacobson<B: Blk>(s: &mut Src) {
    let (n, shape, seed) = gen(s, B::BITS);
    s.note(|| format!("Jacobson, {} blocks", B::NAME));
    on_jacobson::<B>(s, n, shape, seed);
}

fn on_jacobson<B: Blk>(s: &mut Src, n: u64, shape: u64, seed: u64) {
    let store = Counted::<B>::new(n, shape, seed);
    let before = engine::alloc::live();
    let r = JacobsonRank::new(By(&store));
    let bytes = engine::alloc::live() - before;
    let lg = (n.max(2) as f64).log2();
    // Twice what the structure needs, as growing vectors may leave half unused.
    let per_block = (lg * lg + B::BITS as f64).log2() + 2.0;
    let allowed = 2.0 * (1.5 * n as f64 / lg + nblocks::<B>(n as usize) as f64 * per_block) + 4096.0;
    space("JacobsonRank", bytes, allowed / 8.0, n);
    queries(s, "JacobsonRank", &r, &store);
}

fn rank9(s: &mut Src, n: u64, shape: u64, seed: u64) {
    s.label("Rank9");
    let store = Counted::<u64>::new(n, shape, seed);
    let before = engine::alloc::live();
    let r = Rank9::new(By(&store));
    let bytes = engine::alloc::live() - before;
    space("Rank9", bytes, n as f64 / 32.0 + 512.0, n);
    queries(s, "Rank9", &r, &store);
}

fn space(what: &str, bytes: isize, allowed: f64, n: u64) {
    assert!((bytes as f64) <= allowed, "{} over {} bits adds {} bytes, over the {} allowed", what, n, bytes, allowed);
}

fn queries<B: Blk, R: BitRankSupport>(s: &mut Src, what: &str, r: &R, store: &Counted<B>) {
    let n = store.n;
    if n == 0 {
        return;
    }
    for k in 0..60 {
        let p = if k == 0 { n - 1 } else { s.big(n - 1) };
        store.reset();
        match s.idx(4) {
            0 => r.rank1(p),
            1 => r.rank0(p),
            2 => r.rank(p, true),
            _ => r.rank(p, false),
        };
        let b = store.blocks_read();
        assert!(b <= 10, "{} over {} bits: the rank at {} reads {} blocks", what, n, p, b);
    }
    let c = Queries { n, of: |i| { store.reset(); r.rank1(i) }, count: Cell::new(0) };
    let x = BinSearchSelect::new(c);
    let ones = r.rank1(n - 1);
    for _ in 0..6 {
        let k = s.big(n);
        x.inner().count.set(0);
        let got = match s.idx(3) {
            0 => x.select1(k),
            1 => x.select(k, true),
            _ => { let _ = x.select0(k); continue }
        };
        assert!(got.is_some() == (k < ones), "select1({}) of {} ones is {:?}", k, ones, got);
    }
}

/// A rank function that allows only so many queries.
struct Queries<F> {
    n: u64,
    of: F,
    count: Cell<u32>,
}

impl<F: Fn(u64) -> u64> RankSupport for Queries<F> {
    type Over = bool;
    fn rank(&self, position: u64, value: bool) -> u64 {
        assert!(position < self.n, "rank asked beyond the limit");
        let c = self.count.get() + 1;
        self.count.set(c);
        let lg = 64 - self.n.leading_zeros();
        assert!(c <= 4 * lg + 16, "a select over length {} asks over {} rank queries", self.n, c - 1);
        let ones = (self.of)(position);
        if value { ones } else { position + 1 - ones }
    }
    fn limit(&self) -> u64 {
        self.n
    }
}

impl<F: Fn(u64) -> u64> BitRankSupport for Queries<F> {
    fn rank1(&self, position: u64) -> u64 {
        self.rank(position, true)
    }
    fn rank0(&self, position: u64) -> u64 {
        self.rank(position, false)
    }
}

fn virtual_rank(s: &mut Src) {
    s.label("computed rank function");
    s.nontrivial();
    let n = s.big(u64::MAX - 1);
    // ones at the multiples of `step` from `from` on
    let step = s.brange(1, u64::MAX);
    let from = s.big(n);
    s.note(|| format!("a rank function of length {}, ones every {} from {}", n, step, from));
    let f = |i: u64| if i < from { 0 } else { (i - from) / step + 1 };
    let x = BinSearchSelect::new(Queries { n, of: f, count: Cell::new(0) });
    for _ in 0..8 {
        let k = match s.idx(3) {
            0 => s.big(u64::MAX),
            1 => s.big(n),
            _ => s.big((n - from) / step),
        };
        x.inner().count.set(0);
        s.note(|| format!("select {}", k));
        match s.idx(4) {
            0 => x.select1(k),
            1 => x.select0(k),
            2 => x.select(k, true),
            _ => x.select(k, false),
        };
    }
}

fn long() {
    let mut s = engine::fixed_src();
    for shape in 0..5 {
        on_jacobson::<u8>(&mut s, (1 << 23) + 3, shape, 77);
        on_jacobson::<u64>(&mut s, (1 << 27) - 5, shape, 78);
        rank9(&mut s, (1 << 27) + 9, shape, 79);
    }
    on_jacobson::<u8>(&mut s, 1 << 26, 0, 80);
}
