//! C09: select finds exactly the k-th occurrence, or nothing.

use common::*;
use engine::{Prop, Src};
use succinct::bit_vec::{BitSlice, BitVec, BitVecPush, BitVector};
use succinct::broadword::Broadword;
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};

pub const PROP: Prop = Prop {
    id: "C09",
    rule: "random bits or bytes, length 0 to 5000 (60000 thorough), under a select structure over \
           Jacobson, Rank9, words, broadword words, user-defined rank structures over booleans or over \
           other alphabets, or runs of bits or letters totalling any length up to 2^64-1 (up to 2^20 bits, \
           2^26 thorough, in memory); every k that occurs (of long runs: those around the ends, and some) \
           finds its position, then k just above the count and up to the maximum find nothing; select and rank invert each other; inner queries are \
           unchanged. Non-trivial: at least 5 occurrences and 5 non-occurrences",
    case,
    directed: &[("constant", constant), ("every length", every_length)],
};

pub fn case(s: &mut Src) {
    match s.weighted(&[100, 60, 20, 40, 60, 80, 1]) {
        0 => with_any_block!(s, over_jacobson(s)),
        1 => over_rank9(s),
        2 => over_words(s),
        3 => over_user(s),
        5 => over_runs(s),
        6 => with_block!(s, over_long(s)),
        _ => over_alphabet(s),
    }
}

fn gen(s: &mut Src) -> Vec<bool> {
    let n = gen_len(s, if s.thorough { 60_000 } else { 5000 });
    let m = gen_bits(s, n);
    let ones = m.iter().filter(|&&b| b).count();
    s.nontrivial_if(ones >= 5 && n - ones >= 5);
    s.label_if(n > 2000, "over 2000 bits");
    m
}

fn over_jacobson<B: Blk>(s: &mut Src) {
    let m = gen(s);
    let junk = s.word();
    s.note(|| format!("select over Jacobson rank, {}, junk {:#x}: {}", B::NAME, junk, show(&m)));
    s.label("Jacobson");
    match s.idx(3) {
        0 => {
            let mut v: BitVector<B> = BitVector::new();
            m.iter().for_each(|&b| v.push_bit(b));
            let x = BinSearchSelect::new(JacobsonRank::new(v));
            bits(s, &x, &m);
            check_reads("select structure", &x, &m, s);
            assert!(x.inner().inner().bit_len() == m.len() as u64);
            check_reads("handed back", &x.into_inner().into_inner(), &m, s);
        }
        1 => bits(s, &BinSearchSelect::new(JacobsonRank::new(OnlyBlocks::<B>::new(&m, junk))), &m),
        _ => {
            let base = OnlyBlocks::<B>::new(&m, junk);
            let (a, c) = gen_span(s, m.len(), m.len());
            let sl = BitSlice::new(&base, a as u64..(a + c) as u64);
            bits(s, &BinSearchSelect::new(JacobsonRank::new(sl)), &m[a..a + c])
        }
    }
}

fn over_rank9(s: &mut Src) {
    let m = gen(s);
    let junk = s.word();
    s.note(|| format!("select over Rank9, junk {:#x}: {}", junk, show(&m)));
    s.label("Rank9");
    let x = BinSearchSelect::new(Rank9::new(OnlyBlocks::<u64>::new(&m, junk)));
    bits(s, &x, &m);
    check_reads("select structure", &x, &m, s);
    if s.bool() {
        let y = BinSearchSelect::new(x);
        bits(s, &y, &m);
    }
}

fn over_words(s: &mut Src) {
    let w = s.word();
    s.note(|| format!("select over the word {:#x}", w));
    s.label("words");
    let m: Vec<bool> = (0..64).map(|i| w >> i & 1 == 1).collect();
    s.nontrivial_if((5..60).contains(&w.count_ones()));
    bits(s, &BinSearchSelect::new(w as u8), &m[..8]);
    bits(s, &BinSearchSelect::new(w as u16), &m[..16]);
    bits(s, &BinSearchSelect::new(w as u32), &m[..32]);
    bits(s, &BinSearchSelect::new(w), &m);
    bits(s, &BinSearchSelect::new(w as usize), &m[..usize::BITS as usize]);
    bits(s, &BinSearchSelect::new(Broadword(w)), &m);
    let k = s.big(u64::MAX);
    let want = (0..64).filter(|&i| m[i]).nth(k.min(1000) as usize).map(|i| i as u64);
    let g = Broadword(w).select1(k);
    assert!(g == want, "Broadword({:#x}).select1({}) is {:?}, expected {:?}", w, k, g, want);
}

/// Everything about select over booleans.
fn bits<X>(s: &mut Src, x: &X, m: &[bool])
where
    X: BitRankSupport + Select1Support + Select0Support + SelectSupport<Over = bool>,
{
    assert!(x.limit() == m.len() as u64, "limit is {}, expected {}", x.limit(), m.len());
    let mut n = [0u64; 2];
    for (i, &b) in m.iter().enumerate() {
        let i = i as u64;
        let k = n[b as usize];
        n[b as usize] += 1;
        let g = if b { x.select1(k) } else { x.select0(k) };
        assert!(g == Some(i), "select{}({}) is {:?}, expected {} of {} bits", b as u8, k, g, i, m.len());
        let g = x.select(k, b);
        assert!(g == Some(i), "select({}, {}) is {:?}, expected {}", k, b, g, i);
        let g = (x.rank1(i), x.rank0(i), x.rank(i, true), x.rank(i, false));
        assert!(g == (n[1], n[0], n[1], n[0]), "ranks at {} are {:?}, expected {:?}", i, g, n);
    }
    for b in [false, true] {
        let n = n[b as usize];
        for k in [n, n + 1, n + 63, u64::MAX, u64::MAX - 1, 1 << 32, 1 << 63, n + (1 << 32), s.brange(n, u64::MAX)] {
            let g = if b { x.select1(k) } else { x.select0(k) };
            assert!(g.is_none(), "select{}({}) is {:?} with {} occurrences", b as u8, k, g, n);
            let g = x.select(k, b);
            assert!(g.is_none(), "select({}, {}) is {:?} with {} occurrences", k, b, g, n);
        }
    }
}

/// A user-defined rank structure over booleans, by counting.
struct Counted<'a>(&'a [bool]);

impl<'a> RankSupport for Counted<'a> {
    type Over = bool;
    fn rank(&self, p: u64, v: bool) -> u64 {
        assert!(p < self.limit(), "rank asked beyond the limit");
        self.0[..=p as usize].iter().filter(|&&b| b == v).count() as u64
    }
    fn limit(&self) -> u64 {
        self.0.len() as u64
    }
}

impl<'a> BitRankSupport for Counted<'a> {}

/// The same, giving only `rank1`.
struct Rank1(Vec<u64>);

impl RankSupport for Rank1 {
    type Over = bool;
    fn rank(&self, p: u64, v: bool) -> u64 {
        if v {
            self.rank1(p)
        } else {
            self.rank0(p)
        }
    }
    fn limit(&self) -> u64 {
        self.0.len() as u64
    }
}

impl BitRankSupport for Rank1 {
    fn rank1(&self, p: u64) -> u64 {
        self.0[p as usize]
    }
}

fn over_user(s: &mut Src) {
    let n = s.size(400);
    let m = gen_bits(s, n);
    s.note(|| format!("select over user-defined ranks of {}", show(&m)));
    s.label("user-defined");
    let ones = m.iter().filter(|&&b| b).count();
    s.nontrivial_if(ones >= 5 && n - ones >= 5);
    bits(s, &BinSearchSelect::new(Counted(&m)), &m);
    let mut c = 0;
    let r = m.iter().map(|&b| {
        c += b as u64;
        c
    });
    bits(s, &BinSearchSelect::new(Rank1(r.collect())), &m);
}

/// A user-defined rank structure over any alphabet.
struct Letters<T>(Vec<T>);

impl<T: Copy + PartialEq> RankSupport for Letters<T> {
    type Over = T;
    fn rank(&self, p: u64, v: T) -> u64 {
        assert!(p < self.limit(), "rank asked beyond the limit");
        self.0[..=p as usize].iter().filter(|&&b| b == v).count() as u64
    }
    fn limit(&self) -> u64 {
        self.0.len() as u64
    }
}

fn letters<T: Copy + PartialEq + std::fmt::Debug>(s: &mut Src, text: Vec<T>, alphabet: &[T]) {
    let x = BinSearchSelect::new(Letters(text.clone()));
    assert!(x.limit() == text.len() as u64);
    for &a in alphabet {
        let at: Vec<u64> = (0..text.len()).filter(|&i| text[i] == a).map(|i| i as u64).collect();
        for (k, &p) in at.iter().enumerate() {
            let g = x.select(k as u64, a);
            assert!(g == Some(p), "select({}, {:?}) is {:?}, expected {} in {:?}", k, a, g, p, text);
            assert!(x.rank(p, a) == k as u64 + 1);
        }
        let n = at.len() as u64;
        for k in [n, n + 1, u64::MAX, u64::MAX - 1, s.brange(n, u64::MAX)] {
            let g = x.select(k, a);
            assert!(g.is_none(), "select({}, {:?}) is {:?} with {} occurrences in {:?}", k, a, g, n, text);
        }
    }
    assert!(x.into_inner().0 == text);
}

fn over_alphabet(s: &mut Src) {
    s.label("other alphabets");
    let n = s.size(150);
    let sigma = s.range(1, 12) as u8;
    let text: Vec<u8> = (0..n).map(|_| s.below(sigma as u64) as u8).collect();
    s.note(|| format!("select over the text {:?}", text));
    s.nontrivial_if(n >= 10 && sigma > 1);
    match s.idx(3) {
        0 => letters(s, text, &(0..=sigma).collect::<Vec<_>>()),
        1 => {
            let t = text.iter().map(|&c| (b'a' + c) as char).collect();
            letters(s, t, &(0..=sigma).map(|c| (b'a' + c) as char).collect::<Vec<_>>())
        }
        _ => {
            let t = text.iter().map(|&c| (c as i64 - 3, c % 2 == 0)).collect();
            letters(s, t, &(0..=sigma).map(|c| (c as i64 - 3, c % 2 == 0)).collect::<Vec<_>>())
        }
    }
}

/// A sequence made of runs: `(value, start, end)`.
struct Runs<T>(Vec<(T, u64, u64)>);

impl<T: Copy + PartialEq + std::fmt::Debug> Runs<T> {
    fn gen(s: &mut Src, max: u64, mut letter: impl FnMut(&mut Src) -> T) -> Runs<T> {
        let mut v = Vec::new();
        let mut at = 0;
        let n = s.size(12);
        for i in 0..n {
            if at == max {
                break;
            }
            // Often short runs next to long ones.
            let l = match s.idx(3) {
                0 => s.brange(1, 70.min(max - at)),
                1 if i + 1 == n => max - at,
                _ => s.brange(1, max - at),
            };
            v.push((letter(s), at, at + l));
            at += l;
        }
        Runs(v)
    }
    fn len(&self) -> u64 {
        self.0.last().map_or(0, |r| r.2)
    }
    fn count(&self, v: T) -> u64 {
        self.0.iter().filter(|r| r.0 == v).map(|r| r.2 - r.1).sum()
    }
    fn find(&self, k: u64, v: T) -> Option<u64> {
        let mut k = k;
        for r in self.0.iter().filter(|r| r.0 == v) {
            if k < r.2 - r.1 {
                return Some(r.1 + k);
            }
            k -= r.2 - r.1;
        }
        None
    }
    /// Indices worth asking for: around both ends of every run, past the last, and some more.
    fn indices(&self, s: &mut Src, v: T) -> Vec<u64> {
        let mut ks = vec![0, 1, u64::MAX, u64::MAX - 1];
        let mut n = 0u64;
        for r in self.0.iter().filter(|r| r.0 == v) {
            let e = n + (r.2 - r.1);
            ks.extend([n.saturating_sub(1), n, n + (e - n) / 2, e.saturating_sub(2), e - 1, s.range(n, e - 1)]);
            n = e;
        }
        ks.extend([n, n.saturating_add(1), s.brange(n, u64::MAX), s.big(n)]);
        ks
    }
}

impl<T: Copy + PartialEq + std::fmt::Debug> RankSupport for Runs<T> {
    type Over = T;
    fn rank(&self, p: u64, v: T) -> u64 {
        assert!(p < self.len(), "rank asked beyond the limit");
        self.0.iter().filter(|r| r.0 == v && r.1 <= p).map(|r| if p < r.2 { p - r.1 + 1 } else { r.2 - r.1 }).sum()
    }
    fn limit(&self) -> u64 {
        self.len()
    }
}

impl BitRankSupport for Runs<bool> {
    fn rank1(&self, p: u64) -> u64 {
        self.rank(p, true)
    }
    fn rank0(&self, p: u64) -> u64 {
        self.rank(p, false)
    }
}

fn ask_runs<X, T>(s: &mut Src, x: &X, m: &Runs<T>, v: T)
where
    X: SelectSupport<Over = T> + RankSupport<Over = T>,
    T: Copy + PartialEq + std::fmt::Debug,
{
    for k in m.indices(s, v) {
        let want = m.find(k, v);
        let got = x.select(k, v);
        assert!(got == want, "select({}, {:?}) is {:?}, expected {:?} in runs {:?}", k, v, got, want, m.0);
        if let Some(p) = got {
            let r = x.rank(p, v);
            assert!(r == k + 1, "rank({}, {:?}) is {}, expected {} in runs {:?}", p, v, r, k + 1, m.0);
        }
    }
}

fn ask_bit_runs<X>(s: &mut Src, x: &X, m: &Runs<bool>)
where
    X: BitRankSupport + Select1Support + Select0Support + SelectSupport<Over = bool>,
{
    for v in [false, true] {
        ask_runs(s, x, m, v);
        for k in m.indices(s, v) {
            let want = m.find(k, v);
            let got = if v { x.select1(k) } else { x.select0(k) };
            assert!(got == want, "select{}({}) is {:?}, expected {:?} in runs {:?}", v as u8, k, got, want, m.0);
        }
    }
}

fn over_runs(s: &mut Src) {
    s.label("runs of any length");
    let max = s.brange(1, u64::MAX);
    if s.bool() {
        let m = Runs::gen(s, max, |s| s.bool());
        s.note(|| format!("select over bits in runs {:?}", m.0));
        let (a, b) = (m.count(true), m.count(false));
        s.nontrivial_if(a >= 5 && b >= 5);
        s.label_if(m.len() > 1 << 32, "over 2^32 bits");
        let x = BinSearchSelect::new(Runs(m.0.clone()));
        ask_bit_runs(s, &x, &m);
        assert!(x.limit() == m.len());
        let y = x.into_inner();
        assert!(y.0 == m.0);
    } else {
        let m = Runs::gen(s, max, |s| s.below(4) as u8);
        s.note(|| format!("select over letters in runs {:?}", m.0));
        s.nontrivial_if(m.0.len() > 2);
        let x = BinSearchSelect::new(Runs(m.0.clone()));
        for v in 0..5 {
            ask_runs(s, &x, &m, v);
        }
    }
}

/// The same in memory, under the real rank structures.
fn over_long<B: Blk>(s: &mut Src) {
    s.label("long runs in memory");
    let max = s.brange(1, if s.thorough { 1 << 26 } else { 1 << 20 });
    let m = Runs::gen(s, max, |s| s.bool());
    s.note(|| format!("select over a vector of {} with bits in runs {:?}", B::NAME, m.0));
    s.nontrivial_if(m.count(true) >= 5 && m.count(false) >= 5);
    fn build<B: Blk>(m: &Runs<bool>) -> BitVector<B> {
        let mut v = BitVector::new();
        for &(b, _, e) in &m.0 {
            v.resize(e, b);
        }
        v
    }
    ask_bit_runs(s, &BinSearchSelect::new(JacobsonRank::new(build::<B>(&m))), &m);
    ask_bit_runs(s, &BinSearchSelect::new(Rank9::new(build::<u64>(&m))), &m);
}

fn constant() {
    let mut s = engine::fixed_src();
    for n in (0..200).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65_536]) {
        for b in [false, true] {
            let m = vec![b; n];
            bits(&mut s, &BinSearchSelect::new(JacobsonRank::new(OnlyBlocks::<u8>::new(&m, u64::MAX))), &m);
            bits(&mut s, &BinSearchSelect::new(Rank9::new(OnlyBlocks::<u64>::new(&m, u64::MAX))), &m);
        }
    }
}

/// Every occurrence in patterns of every length up to a few large blocks.
fn every_length() {
    let mut s = engine::fixed_src();
    for n in (0..700).chain([1023, 1024, 1025, 2047, 2048, 2049, 4096, 8191, 8193]) {
        let p = n % 5;
        let m: Vec<bool> = (0..n)
            .map(|i| match p {
                0 => i % 3 == 0,
                1 => (i as u64 + 7).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 63 == 1,
                2 => i + 1 == n || i == n / 2,
                3 => i + 1 != n && i % 64 != 63,
                _ => i / 64 % 2 == 1,
            })
            .collect();
        bits(&mut s, &BinSearchSelect::new(JacobsonRank::new(OnlyBlocks::<u16>::new(&m, u64::MAX))), &m);
        bits(&mut s, &BinSearchSelect::new(Rank9::new(OnlyBlocks::<u64>::new(&m, u64::MAX))), &m);
    }
}
