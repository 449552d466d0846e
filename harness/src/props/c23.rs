//! C23: positions and lengths beyond 32 bits work like any others.

use common::*;
use engine::{catch, Prop, Src};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::coding::{Unary, UniversalCode, GAMMA};
use succinct::int_vec::{IntVec, IntVecMut, IntVector};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::stream::{BitBuffer, BitRead, BitWrite};

pub const PROP: Prop = Prop {
    id: "C23",
    rule: "computed (virtual) stores of any length up to 2^64-1 that define only bits or only blocks, of any \
           block type, read and written directly, through nested slices and through bit buffers at any \
           position, against a formula with overlaid writes; select over computed rank functions of any \
           length against closed forms; and, in two of the builds, vectors of 2^32 + 2^26 + 37 bits in \
           memory: bit and integer vectors, iterators, slices, Jacobson rank, Rank9 and select over them, \
           at generated positions around and beyond 2^32, with over 2^32 ones; histories of up to 12 steps on \
           nearly empty vectors of about 2^31 to 2^33 bits or elements (their memory is never touched but \
           where something happens), against a list of the ones. Directed, in the optimised build: a unary \
           number beyond 2^32, written, read, and ending too soon; rank and select over 2^34 computed bits. \
           Non-trivial: something \
           happens at a position beyond 2^32",
    case,
    directed: &[("unary numbers beyond 32 bits", long_unary), ("rank over 2^34 bits", giant_ranks)],
};

const BIG: u64 = (1 << 32) + (1 << 26) + 37;

/// The bits every store here starts from.
fn word(seed: u64, i: u64) -> u64 {
    let mut h = (i ^ seed).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^= h >> 29;
    h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    h ^ h >> 32
}

fn bit(seed: u64, i: u64) -> bool {
    word(seed, i / 64) >> (i % 64) & 1 == 1
}

/// The formula with writes over it.
#[derive(Clone)]
struct Model {
    n: u64,
    seed: u64,
    over: BTreeMap<u64, bool>,
}

impl Model {
    fn bit(&self, i: u64) -> bool {
        assert!(i < self.n, "HARNESS: model read beyond the end");
        self.over.get(&i).copied().unwrap_or_else(|| bit(self.seed, i))
    }
    fn get(&self, start: u64, count: usize) -> u64 {
        (0..count).fold(0, |r, j| r | (self.bit(start + j as u64) as u64) << j)
    }
    fn set(&mut self, start: u64, count: usize, v: u64) {
        for j in 0..count {
            self.over.insert(start + j as u64, v >> j & 1 == 1);
        }
    }
}

#[derive(Clone)]
struct VirtBits<B> {
    m: Model,
    p: PhantomData<B>,
}

impl<B: Blk> BitVec for VirtBits<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.m.n
    }
    fn get_bit(&self, i: u64) -> bool {
        assert!(i < self.m.n, "VirtBits: out of bounds");
        self.m.bit(i)
    }
}

impl<B: Blk> BitVecMut for VirtBits<B> {
    fn set_bit(&mut self, i: u64, v: bool) {
        assert!(i < self.m.n, "VirtBits: out of bounds");
        self.m.over.insert(i, v);
    }
}

impl<B: Blk> BitVecPush for VirtBits<B> {
    fn push_bit(&mut self, v: bool) {
        self.m.over.insert(self.m.n, v);
        self.m.n += 1;
    }
    fn pop_bit(&mut self) -> Option<bool> {
        self.m.n = self.m.n.checked_sub(1)?;
        let v = self.m.over.remove(&self.m.n);
        Some(v.unwrap_or_else(|| bit(self.m.seed, self.m.n)))
    }
}

#[derive(Clone)]
struct VirtBlocks<B> {
    n: u64,
    seed: u64,
    over: BTreeMap<usize, B>,
}

impl<B: Blk> VirtBlocks<B> {
    fn blocks(&self) -> u64 {
        let b = B::BITS as u64;
        self.n / b + (self.n % b != 0) as u64
    }
}

impl<B: Blk> BitVec for VirtBlocks<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.n
    }
    fn get_block(&self, i: usize) -> B {
        assert!((i as u64) < self.blocks(), "VirtBlocks: out of bounds");
        self.over.get(&i).copied().unwrap_or_else(|| {
            let start = i as u64 * B::BITS as u64;
            B::of(word(self.seed, start / 64) >> (start % 64))
        })
    }
}

impl<B: Blk> BitVecMut for VirtBlocks<B> {
    fn set_block(&mut self, i: usize, v: B) {
        assert!((i as u64) < self.blocks(), "VirtBlocks: out of bounds");
        self.over.insert(i, v);
    }
}

impl<B: Blk> BitVecPush for VirtBlocks<B> {
    fn push_bit(&mut self, v: bool) {
        self.n += 1;
        self.set_bit(self.n - 1, v);
    }
    fn pop_bit(&mut self) -> Option<bool> {
        let i = self.n.checked_sub(1)?;
        let v = self.get_bit(i);
        self.n = i;
        Some(v)
    }
}

/// Counts the zeros written before a one.
struct Zeros {
    zeros: u64,
    ones: u64,
}

impl BitWrite for Zeros {
    #[inline]
    fn write_bit(&mut self, bit: bool) -> std::io::Result<()> {
        assert!(self.ones == 0, "something is written after the one");
        self.zeros += !bit as u64;
        self.ones += bit as u64;
        Ok(())
    }
}

/// Zeros, and a one after them if `one`.
struct Run {
    left: u64,
    one: bool,
}

impl BitRead for Run {
    #[inline]
    fn read_bit(&mut self) -> std::io::Result<Option<bool>> {
        if self.left > 0 {
            self.left -= 1;
            return Ok(Some(false));
        }
        Ok(if self.one {
            self.one = false;
            Some(true)
        } else {
            None
        })
    }
}

pub fn long_unary() {
    if cfg!(debug_assertions) || engine::cov::instrumented() {
        return;
    }
    const N: u64 = (1 << 32) + 77;
    let mut w = Zeros { zeros: 0, ones: 0 };
    Unary.encode(&mut w, N).unwrap();
    assert_eq!((w.zeros, w.ones), (N, 1), "zeros and ones written for a unary number of 2^32 + 77");
    let mut r = Run { left: N, one: true };
    assert_eq!(Unary.decode(&mut r).unwrap(), Some(N), "a unary number of 2^32 + 77");
    assert_eq!((r.left, r.one), (0, false), "what is left after a unary number");
    let e = Unary.decode(&mut Run { left: N, one: false }).map_err(|e| e.kind());
    assert_eq!(e, Err(std::io::ErrorKind::UnexpectedEof), "2^32 + 77 zeros without a one");
    let e = GAMMA.decode(&mut Run { left: N - 77 + 5, one: true });
    assert!(e.is_err(), "a gamma header of 2^32 + 5 is {:?}", e);
}

pub fn case(s: &mut Src) {
    let real = s.prob(1, 3);
    // Coverage instrumentation makes filling half a gigabyte too slow.
    if real && !engine::cov::instrumented() && (cfg!(target_pointer_width = "64") || !cfg!(debug_assertions)) {
        return materialised(s);
    }
    match s.weighted(&[3, 2, 3, 2, 4]) {
        4 => {
            s.label("nearly empty");
            if s.bool() {
                with_block!(s, sparse_bits(s))
            } else {
                with_block!(s, sparse_ints(s))
            }
        }
        0 => with_block!(s, direct(s)),
        1 => with_block!(s, sliced(s)),
        2 => with_block!(s, buffered(s)),
        _ => selected(s),
    }
}

fn gen_n(s: &mut Src) -> u64 {
    match s.idx(3) {
        0 => s.big(u64::MAX),
        1 => s.brange(1 << 32, u64::MAX),
        _ => s.brange(1 << 31, 1 << 34),
    }
}

fn model<B: Blk>(s: &mut Src, spare: u64) -> Model {
    let blocks = (usize::MAX as u64).saturating_mul(B::BITS as u64);
    let n = gen_n(s);
    let n = if n <= blocks - spare { n } else { n % (blocks - spare) };
    let seed = s.draw(u64::MAX, |r| r.next());
    s.note(|| format!("{} virtual bits from seed {:#x}, {} blocks", n, seed, B::NAME));
    Model { n, seed, over: BTreeMap::new() }
}

/// `(start, count)` inside `0 .. n`.
fn span(s: &mut Src, n: u64, width: usize) -> (u64, usize) {
    let count = s.size(width.min(usize::try_from(n).unwrap_or(width)));
    let room = n - count as u64;
    let start = match s.idx(4) {
        0 => room,
        1 => room - s.big(room.min(300)),
        2 => s.big(room),
        _ => s.draw(room, |r| r.upto(room)),
    };
    s.nontrivial_if(start >= 1 << 32);
    (start, count)
}

fn read<B: Blk, V: BitVec<Block = B> + ?Sized>(s: &mut Src, what: &str, v: &V, m: &Model, off: u64, n: u64) {
    assert!(v.bit_len() == n, "{}: bit_len is {}, expected {}", what, v.bit_len(), n);
    let b = B::BITS as u64;
    let nb = n / b + (n % b != 0) as u64;
    // A number of blocks beyond the machine word cannot be told.
    if let Ok(nb) = usize::try_from(nb) {
        assert!(v.block_len() == nb, "{}: block_len is {}, expected {}", what, v.block_len(), nb);
    }
    for _ in 0..3 {
        let (p, c) = span(s, n, B::BITS);
        let (got, want) = (v.get_bits(p, c).to(), m.get(off + p, c));
        assert!(got == want, "{}: get_bits({}, {}) is {:#x}, expected {:#x}", what, p, c, got, want);
        if n > 0 {
            let (p, _) = span(s, n - 1, 1);
            assert!(v.get_bit(p) == m.bit(off + p), "{}: get_bit({}) is wrong", what, p);
            let (i, _) = span(s, nb - 1, 0);
            if let Ok(k) = usize::try_from(i) {
                let inside = (n - i * b).min(b) as usize;
                let (got, want) = (v.get_block(k).to() & low(inside), m.get(off + i * b, inside));
                assert!(got == want, "{}: get_block({}) is {:#x}, expected {:#x}", what, i, got, want);
            }
        }
    }
    if n < u64::MAX {
        let p = s.brange(n, u64::MAX);
        assert!(catch(|| v.get_bit(p)).is_err(), "{}: get_bit({}) beyond {} is accepted", what, p, n);
        let c = 1 + s.size(B::BITS - 1);
        let p = p.saturating_sub(s.size(c - 1) as u64).max((n + 1).saturating_sub(c as u64));
        assert!(catch(|| v.get_bits(p, c)).is_err(), "{}: get_bits({}, {}) beyond {} is accepted", what, p, c, n);
    }
}

fn write<B: Blk, V: BitVecMut<Block = B> + ?Sized>(s: &mut Src, v: &mut V, m: &mut Model, off: u64, n: u64) {
    let b = B::BITS as u64;
    match s.idx(3) {
        0 if n > 0 => {
            let (p, x) = (span(s, n - 1, 0).0, s.bool());
            s.note(|| format!("set_bit({}, {})", p, x));
            v.set_bit(p, x);
            m.set(off + p, 1, x as u64);
        }
        1 if n > 0 => {
            let i = span(s, (n - 1) / b, 0).0;
            if let Ok(k) = usize::try_from(i) {
                let x = s.bits(B::BITS);
                s.note(|| format!("set_block({}, {:#x})", k, x));
                v.set_block(k, B::of(x));
                m.set(off + i * b, (n - i * b).min(b) as usize, x);
            }
        }
        _ => {
            let (p, c) = span(s, n, B::BITS);
            let x = s.bits(B::BITS);
            s.note(|| format!("set_bits({}, {}, {:#x})", p, c, x));
            v.set_bits(p, c, B::of(x));
            m.set(off + p, c, x);
        }
    }
}

/// What was written is there, and so is what lies around it.
fn around<B: Blk, V: BitVec<Block = B> + ?Sized>(what: &str, v: &V, m: &Model) {
    for &i in m.over.keys() {
        for j in [i.saturating_sub(1), i, i.saturating_add(1)] {
            if j < m.n {
                assert!(v.get_bit(j) == m.bit(j), "{}: bit {} is {}, expected {}", what, j, v.get_bit(j), m.bit(j));
            }
        }
    }
}

fn direct<B: Blk>(s: &mut Src) {
    let m = model::<B>(s, 0);
    if s.bool() {
        s.label("virtual bits");
        on_direct(s, VirtBits::<B> { m: m.clone(), p: PhantomData }, m);
    } else {
        s.label("virtual blocks");
        on_direct(s, VirtBlocks::<B> { n: m.n, seed: m.seed, over: BTreeMap::new() }, m);
    }
}

fn on_direct<B: Blk, V: BitVec<Block = B> + BitVecMut>(s: &mut Src, mut v: V, mut m: Model) {
    let n = m.n;
    read(s, "virtual store", &v, &m, 0, n);
    for _ in 0..s.idx(6) {
        write(s, &mut v, &mut m, 0, n);
    }
    read(s, "virtual store", &v, &m, 0, n);
    around("virtual store", &v, &m);
}

fn sliced<B: Blk>(s: &mut Src) {
    s.label("slices");
    let m = model::<B>(s, 0);
    if s.bool() {
        on_sliced(s, VirtBits::<B> { m: m.clone(), p: PhantomData }, m);
    } else {
        on_sliced(s, VirtBlocks::<B> { n: m.n, seed: m.seed, over: BTreeMap::new() }, m);
    }
}

fn window(s: &mut Src, n: u64) -> (u64, u64) {
    let a = s.big(n);
    (a, s.brange(a, n))
}

fn on_sliced<B: Blk, V: BitVec<Block = B> + BitVecMut>(s: &mut Src, mut v: V, mut m: Model) {
    let n = m.n;
    let (a, b) = window(s, n);
    let (c, d) = window(s, b - a);
    s.note(|| format!("slice {}..{} of it, {}..{} of that", a, b, c, d));
    {
        let x = BitSlice::new(&v, a..b);
        read(s, "slice", &x, &m, a, b - a);
        let y = x.slice(c..d);
        read(s, "slice of slice", &y, &m, a + c, d - c);
        read(s, "slice from", &x.slice(c..), &m, a + c, b - a - c);
    }
    let mut x = if b == n { BitSliceMut::new(&mut v, a..) } else { BitSliceMut::new(&mut v, a..b) };
    for _ in 0..s.idx(4) {
        write(s, &mut x, &mut m, a, b - a);
    }
    read(s, "mutable slice", &x, &m, a, b - a);
    read(s, "slice of mutable slice", &x.slice(c..d), &m, a + c, d - c);
    let mut y = x.slice_mut(c..d);
    for _ in 0..s.idx(4) {
        write(s, &mut y, &mut m, a + c, d - c);
    }
    read(s, "mutable slice of mutable slice", &y, &m, a + c, d - c);
    around("after writing through slices", &v, &m);
}

/// Bit vectors with more blocks than the machine word can count: what can be
/// addressed is right, the rest is right or rejected, nothing is truncated.
#[cfg(target_pointer_width = "32")]
pub fn overlong<B: Blk>(s: &mut Src) {
    let least = (1u64 << 32) * B::BITS as u64;
    let n = match s.idx(3) {
        // Lengths in blocks that are small once truncated.
        0 => least * (1 + s.big(u64::MAX / least - 2)) + s.big(2000),
        1 => least - (B::BITS as u64 - 1) + s.big(100),
        _ => s.brange(least, u64::MAX),
    };
    let seed = s.draw(u64::MAX, |r| r.next());
    s.note(|| format!("{} computed bits from seed {:#x}, {} blocks", n, seed, B::NAME));
    let m = Model { n, seed, over: BTreeMap::new() };
    let blocks = n / B::BITS as u64 + (n % B::BITS as u64 != 0) as u64;
    if blocks <= u32::MAX as u64 {
        return;
    }
    if s.bool() {
        on_overlong(s, VirtBits::<B> { m: m.clone(), p: PhantomData }, m, true);
    } else {
        on_overlong(s, VirtBlocks::<B> { n: m.n, seed: m.seed, over: BTreeMap::new() }, m, false);
    }
}

#[cfg(target_pointer_width = "32")]
fn on_overlong<B: Blk, V: BitVec<Block = B> + BitVecMut + Clone>(s: &mut Src, mut v: V, mut m: Model, by_bit: bool) {
    let n = m.n;
    s.nontrivial();
    overlong_reads(s, "computed store", &v, &m, 0, n, by_bit);
    let (a, b) = window(s, n);
    s.note(|| format!("slice {}..{}", a, b));
    overlong_reads(s, "slice", &BitSlice::new(&v, a..b), &m, a, b - a, by_bit);
    // A buffer reads bits by blocks.
    overlong_reads(s, "bit buffer", &BitBuffer::from(v.clone()), &m, 0, n, false);
    for _ in 0..s.idx(4) {
        let (lo, hi) = if s.bool() { (0, n) } else { (a, b) };
        let mut x = BitSliceMut::new(&mut v, lo..hi);
        let n = hi - lo;
        let unit = B::BITS as u64;
        match s.idx(3) {
            0 if n > 0 => {
                let (p, y) = (span(s, n - 1, 0).0, s.bool());
                s.note(|| format!("set_bit({}, {}) in {}..{}", p, y, lo, hi));
                let r = catch(|| x.set_bit(p, y));
                assert!(r.is_ok() || lo + p >= 1 << 32, "set_bit({}) panics: {:?}", p, r);
                if r.is_ok() {
                    m.set(lo + p, 1, y as u64);
                }
            }
            1 if n > 0 => {
                let k = span(s, (n - 1) / unit, 0).0.min(u32::MAX as u64);
                let y = s.bits(B::BITS);
                s.note(|| format!("set_block({}, {:#x}) in {}..{}", k, y, lo, hi));
                let r = catch(|| x.set_block(k as usize, B::of(y)));
                assert!(r.is_ok() || lo.saturating_add((k + 1).saturating_mul(unit)) > 1 << 32, "set_block({}) panics: {:?}", k, r);
                if r.is_ok() {
                    m.set(lo + k * unit, (n - k * unit).min(unit) as usize, y);
                }
            }
            _ => {
                let (p, c) = span(s, n, B::BITS);
                let y = s.bits(B::BITS);
                s.note(|| format!("set_bits({}, {}, {:#x}) in {}..{}", p, c, y, lo, hi));
                let r = catch(|| x.set_bits(p, c, B::of(y)));
                assert!(r.is_ok() || lo + p + c as u64 > 1 << 32, "set_bits({}, {}) panics: {:?}", p, c, r);
                if r.is_ok() {
                    m.set(lo + p, c, y);
                } else {
                    // Nothing was written.
                    for j in lo + p..lo + p + c as u64 {
                        if let Ok(bit) = catch(|| v.get_bit(j)) {
                            assert!(bit == m.bit(j), "a rejected set_bits changed bit {}", j);
                        }
                    }
                }
            }
        }
    }
    overlong_reads(s, "computed store", &v, &m, 0, n, by_bit);
    for &i in m.over.keys() {
        for j in [i.saturating_sub(1), i, i.saturating_add(1)] {
            if j < m.n {
                let r = catch(|| v.get_bit(j));
                assert!(r == Ok(m.bit(j)) || (r.is_err() && !by_bit && j >= 1 << 32), "bit {} is {:?}, expected {}", j, r, m.bit(j));
            }
        }
    }
}

#[cfg(target_pointer_width = "32")]
fn overlong_reads<B: Blk, V: BitVec<Block = B> + ?Sized>(s: &mut Src, what: &str, v: &V, m: &Model, off: u64, n: u64, by_bit: bool) {
    let b = B::BITS as u64;
    assert!(v.bit_len() == n, "{}: bit_len is {}, expected {}", what, v.bit_len(), n);
    let blocks = n / b + (n % b != 0) as u64;
    let r = catch(|| v.block_len());
    match usize::try_from(blocks) {
        Ok(k) => assert!(r == Ok(k), "{}: block_len is {:?}, expected {}", what, r, k),
        Err(_) => assert!(r.is_err(), "{}: block_len of {} blocks is {:?}", what, blocks, r),
    }
    for _ in 0..4 {
        let (p, c) = span(s, n, B::BITS);
        let (r, want) = (catch(|| v.get_bits(p, c)).map(|x| x.to()), m.get(off + p, c));
        assert!(r == Ok(want) || (r.is_err() && off + p + c as u64 > 1 << 32), "{}: get_bits({}, {}) is {:x?}, expected {:#x}", what, p, c, r, want);
        if n > 0 {
            let (p, _) = span(s, n - 1, 0);
            let (r, want) = (catch(|| v.get_bit(p)), m.bit(off + p));
            assert!(r == Ok(want) || (r.is_err() && !by_bit && off + p >= 1 << 32), "{}: get_bit({}) is {:?}, expected {}", what, p, r, want);
            let k = span(s, (blocks - 1).min(u32::MAX as u64), 0).0;
            let inside = (n - k * b).min(b) as usize;
            let (r, want) = (catch(|| v.get_block(k as usize)).map(|x| x.to() & low(inside)), m.get(off + k * b, inside));
            // A block of a slice may need two blocks of its base.
            let ends = off.saturating_add((k + 1).saturating_mul(b));
            assert!(r == Ok(want) || (r.is_err() && ends > 1 << 32 && (off > 0 || !by_bit)), "{}: get_block({}) is {:x?}, expected {:#x}", what, k, r, want);
        }
    }
}

fn buffered<B: Blk>(s: &mut Src) {
    s.label("bit buffer");
    let m = model::<B>(s, 4000);
    if s.bool() {
        on_buffered(s, VirtBits::<B> { m: m.clone(), p: PhantomData }, m);
    } else {
        on_buffered(s, VirtBlocks::<B> { n: m.n, seed: m.seed, over: BTreeMap::new() }, m);
    }
}

fn on_buffered<B: Blk, V: BitVec<Block = B> + BitVecMut + BitVecPush>(s: &mut Src, v: V, mut m: Model) {
    let app = s.bool();
    let mut b = if app { BitBuffer::append(v) } else { BitBuffer::from(v) };
    let mut pos = if app { m.n } else { 0 };
    for _ in 0..s.idx(12) {
        assert!(b.position() == pos, "position is {}, expected {}", b.position(), pos);
        s.nontrivial_if(pos >= 1 << 32);
        match s.idx(5) {
            0 => {
                let (p, _) = span(s, m.n, 0);
                s.note(|| format!("seek({})", p));
                b.seek(p).unwrap();
                pos = p;
            }
            1 => {
                let p = s.brange(m.n + 1, u64::MAX);
                assert!(b.seek(p).is_err(), "a seek to {} beyond {} succeeds", p, m.n);
            }
            2 => {
                let k = s.size(64);
                s.note(|| format!("read {} bits", k));
                for _ in 0..k {
                    let want = if pos < m.n { Some(m.bit(pos)) } else { None };
                    let got = b.read_bit().unwrap();
                    assert!(got == want, "the bit read at {} is {:?}, expected {:?}", pos, got, want);
                    pos += want.is_some() as u64;
                }
            }
            3 => {
                let (k, x) = (s.size(64), s.word());
                s.note(|| format!("write {} bits of {:#x}", k, x));
                b.write_int(k, x).unwrap();
                m.n = m.n.max(pos + k as u64);
                m.set(pos, k, x);
                pos += k as u64;
            }
            _ => {
                let n = m.n;
                write(s, &mut b, &mut m, 0, n)
            }
        }
    }
    assert!(b.position() == pos, "position is {}, expected {}", b.position(), pos);
    read(s, "bit buffer", &b, &m, 0, m.n);
    around("bit buffer", b.inner(), &m);
    around("handed back", &b.into_inner(), &m);
}

/// `floor((i * num + c) / den)`, going up by at most one each step.
struct Line {
    n: u64,
    num: u64,
    den: u64,
    c: u64,
}

impl Line {
    fn ones(&self, i: u64) -> u64 {
        ((i as u128 * self.num as u128 + self.c as u128) / self.den as u128) as u64
    }
    /// The least `i < n` where the ones exceed `k`.
    fn one(&self, k: u64) -> Option<u64> {
        let need = ((k as u128 + 1) * self.den as u128).saturating_sub(self.c as u128);
        if need == 0 {
            return if self.n > 0 { Some(0) } else { None };
        }
        if self.num == 0 {
            return None;
        }
        let i = (need + self.num as u128 - 1) / self.num as u128;
        if i < self.n as u128 { Some(i as u64) } else { None }
    }
    /// The least `i < n` where the zeros exceed `k`, by bisection.
    fn zero(&self, k: u64) -> Option<u64> {
        let zeros = |i: u64| i as u128 + 1 - self.ones(i) as u128;
        if self.n == 0 || zeros(self.n - 1) <= k as u128 {
            return None;
        }
        let (mut a, mut b) = (0u128, self.n as u128 - 1);
        while a < b {
            let i = (a + b) / 2;
            if zeros(i as u64) > k as u128 { b = i } else { a = i + 1 }
        }
        Some(a as u64)
    }
}

impl RankSupport for Line {
    type Over = bool;
    fn rank(&self, i: u64, value: bool) -> u64 {
        if value { self.rank1(i) } else { self.rank0(i) }
    }
    fn limit(&self) -> u64 {
        self.n
    }
}

impl BitRankSupport for Line {
    fn rank1(&self, i: u64) -> u64 {
        assert!(i < self.n, "Line: out of bounds");
        self.ones(i)
    }
}

fn selected(s: &mut Src) {
    s.label("select over a rank function");
    let n = gen_n(s);
    let den = s.brange(1, u64::MAX);
    let num = s.big(den);
    let c = s.big(den - 1);
    s.note(|| format!("{} bits, rank1(i) = (i * {} + {}) / {}", n, num, c, den));
    let r = Line { n, num, den, c };
    let total = if n == 0 { 0 } else { r.ones(n - 1) };
    let x = BinSearchSelect::new(r);
    for _ in 0..8 {
        let b = s.bool();
        let have = if b { total } else { n - total };
        let k = match s.idx(3) {
            0 => s.big(have),
            1 => have.saturating_sub(s.big(have.min(9))),
            _ => s.big(u64::MAX),
        };
        s.nontrivial_if(k >= 1 << 32);
        s.note(|| format!("select the {}-th {}", k, b));
        let want = if b { x.inner().one(k) } else { x.inner().zero(k) };
        let got = match (s.bool(), b) {
            (true, true) => x.select1(k),
            (true, false) => x.select0(k),
            _ => x.select(k, b),
        };
        assert!(got == want, "selecting the {}-th {} gives {:?}, expected {:?}", k, b, got, want);
    }
}

// Nearly empty vectors in memory.

/// Zeros but for some words.
struct Sparse {
    n: u64,
    words: BTreeMap<u64, u64>,
}

impl Sparse {
    fn zeros(n: u64) -> Self {
        Sparse { n, words: BTreeMap::new() }
    }
    fn word(&self, i: u64) -> u64 {
        self.words.get(&i).copied().unwrap_or(0)
    }
    fn bit(&self, i: u64) -> bool {
        self.word(i / 64) >> (i % 64) & 1 == 1
    }
    fn get(&self, start: u64, count: usize) -> u64 {
        let (i, r) = (start / 64, start % 64);
        let lo = self.word(i) >> r;
        let hi = if r == 0 { 0 } else { self.word(i + 1) << (64 - r) };
        (lo | hi) & low(count)
    }
    fn set(&mut self, start: u64, count: usize, v: u64) {
        let (i, r) = (start / 64, start % 64);
        let (m, v) = ((low(count) as u128) << r, ((v & low(count)) as u128) << r);
        for (j, m, v) in [(i, m as u64, v as u64), (i + 1, (m >> 64) as u64, (v >> 64) as u64)] {
            if m != 0 {
                let w = self.words.entry(j).or_insert(0);
                *w = *w & !m | v;
                if *w == 0 {
                    self.words.remove(&j);
                }
            }
        }
    }
    fn resize(&mut self, n: u64, v: bool) {
        if n < self.n {
            self.words.split_off(&((n + 63) / 64));
            if n % 64 != 0 {
                self.set(n, 64 - (n % 64) as usize, 0);
            }
        } else if v {
            for i in self.n..n {
                self.set(i, 1, 1);
            }
        }
        self.n = n;
    }
    fn push(&mut self, count: usize, v: u64) {
        let n = self.n;
        self.n += count as u64;
        self.set(n, count, v);
    }
    /// Positions of some ones, the last ones first, at most two in a word.
    fn ones(&self) -> Vec<u64> {
        let mut r = vec![];
        for (&i, &w) in self.words.iter().rev().take(60) {
            r.push(i * 64 + 63 - w.leading_zeros() as u64);
            r.push(i * 64 + w.trailing_zeros() as u64);
        }
        r
    }
    /// Some position, often close to the end or to a power of two.
    fn some(&self, s: &mut Src, room: u64) -> u64 {
        let n = self.n - room;
        match s.idx(4) {
            0 => n - s.big(n.min(200)),
            1 => ((1 << 31 << s.idx(3)) + s.big(200)).saturating_sub(100).min(n),
            2 if !self.words.is_empty() => {
                let i = s.idx(self.words.len());
                let (&i, &w) = self.words.iter().nth(i).unwrap();
                (i * 64 + w.trailing_zeros() as u64).min(n)
            }
            _ => s.big(n),
        }
    }
}

fn same_sparse<B: Blk, V: BitVec<Block = B>>(s: &mut Src, v: &V, m: &Sparse) {
    let b = B::BITS as u64;
    assert!(v.bit_len() == m.n, "bit_len is {}, expected {}", v.bit_len(), m.n);
    let nb = (m.n + b - 1) / b;
    assert!(v.block_len() as u64 == nb, "block_len is {}, expected {}", v.block_len(), nb);
    for i in nb.saturating_sub(3)..nb {
        let want = m.get(i * b, (m.n - i * b).min(b) as usize);
        assert!(v.get_block(i as usize).to() == want, "get_block({}) is {:#x}, expected {:#x}", i, v.get_block(i as usize).to(), want);
    }
    for i in m.ones() {
        // Also where it would have landed with some bits dropped.
        for j in [i, i + 1, i.wrapping_sub(1), i & 0xFFFF_FFFF, i & 0x7FFF_FFFF, i & 0xFF_FFFF] {
            if j < m.n {
                assert!(v.get_bit(j) == m.bit(j), "bit {} is {}, expected {}", j, v.get_bit(j), m.bit(j));
            }
        }
    }
    for _ in 0..2 {
        let c = s.size(B::BITS);
        let p = m.some(s, c as u64);
        assert!(v.get_bits(p, c).to() == m.get(p, c), "get_bits({}, {}) is {:#x}, expected {:#x}", p, c, v.get_bits(p, c).to(), m.get(p, c));
        s.nontrivial_if(p >= 1 << 32);
    }
}

/// `nth`, if need be in several steps.
fn far_nth<I: Iterator>(t: &mut I, mut p: u64) -> Option<I::Item> {
    while p > usize::MAX as u64 {
        t.nth(usize::MAX)?;
        p = p - usize::MAX as u64 - 1;
    }
    t.nth(p as usize)
}

fn exactly<I: Iterator>(t: &I, left: u64) {
    let h = t.size_hint();
    match usize::try_from(left) {
        Ok(n) => assert!(h == (n, Some(n)), "size_hint is {:?}, {} are left", h, n),
        Err(_) => assert!(h.0 as u64 <= left && h.1.is_none(), "size_hint is {:?}, {} are left", h, left),
    }
}

/// `count`, which is no number when it fits no `usize`.
fn counts<I: Iterator>(t: I, left: u64) {
    match usize::try_from(left) {
        Ok(n) => assert!(t.count() == n, "count of {}", n),
        Err(_) => {
            let r = catch(|| t.count());
            assert!(r.is_err(), "count of {} is {:?}", left, r);
        }
    }
}

/// How large a vector may get, as a power of two of bits: a vector on a 32-bit
/// target has less than 2^31 bytes, and may double when it grows.
const LARGEST: u32 = if cfg!(target_pointer_width = "64") { 33 } else { 32 };

fn near(s: &mut Src, most: u32) -> u64 {
    let c = 1u64 << (31 + s.idx(most as usize - 30));
    c + s.below(600) - 300
}

fn sparse_bits<B: Blk>(s: &mut Src) {
    let n = near(s, LARGEST);
    let b = B::BITS as u64;
    let mut v: BitVector<B> = if s.bool() {
        BitVector::with_fill(n, false)
    } else {
        let mut v = BitVector::block_with_fill(((n + b - 1) / b) as usize, B::of(0));
        v.truncate(n);
        v
    };
    let mut m = Sparse::zeros(n);
    s.note(|| format!("a bit vector of {} zeros, {} blocks", n, B::NAME));
    let mut steps = 0;
    while steps < 12 && s.more(9, 10) {
        steps += 1;
        let op = s.idx(12);
        match op {
            0 | 1 => {
                let (c, x) = (s.size(200), s.word());
                s.note(|| format!("push {} bits of {:#x}", c, x));
                for i in 0..c {
                    v.push_bit(x >> (i % 64) & 1 == 1);
                    m.push(1, x >> (i % 64) & 1);
                }
            }
            2 => {
                let c = s.size(200);
                s.note(|| format!("pop {} bits", c));
                for _ in 0..c {
                    let want = m.bit(m.n - 1);
                    assert!(v.pop_bit() == Some(want), "pop_bit");
                    let n = m.n - 1;
                    m.resize(n, false);
                }
            }
            3 => {
                let x = s.bits(B::BITS);
                s.note(|| format!("push_block({:#x})", x));
                v.push_block(B::of(x));
                m.resize((m.n + b - 1) / b * b, false);
                m.push(B::BITS, x);
            }
            4 => {
                let n = m.n - s.below(300);
                s.note(|| format!("truncate({})", n));
                v.truncate(n);
                m.resize(n, false);
            }
            5 => {
                let (n, x) = (m.n + s.below(600) - 300, s.bool());
                s.note(|| format!("resize({}, {})", n, x));
                v.resize(n, x);
                m.resize(n, x);
            }
            6 => {
                let (n, x) = (v.block_len() + s.idx(6), s.bits(B::BITS));
                let n = n - 3;
                s.note(|| format!("block_resize({}, {:#x})", n, x));
                v.block_resize(n, B::of(x));
                let old = (m.n + b - 1) / b;
                m.resize((old * b).min(n as u64 * b), false);
                for _ in old..n as u64 {
                    m.push(B::BITS, x);
                }
            }
            7 => {
                let c = s.size(B::BITS);
                let (p, x) = (m.some(s, c as u64), s.bits(B::BITS));
                s.note(|| format!("set_bits({}, {}, {:#x})", p, c, x));
                v.set_bits(p, c, B::of(x));
                m.set(p, c, x);
            }
            8 => {
                let (p, x) = (m.some(s, 1), s.bool());
                s.note(|| format!("set_bit({}, {})", p, x));
                v.set_bit(p, x);
                m.set(p, 1, x as u64);
            }
            9 => {
                let (i, x) = (m.some(s, 1) / b, s.bits(B::BITS));
                s.note(|| format!("set_block({}, {:#x})", i, x));
                v.set_block(i as usize, B::of(x));
                let n = m.n;
                m.set(i * b, (n - i * b).min(b) as usize, x);
            }
            10 => {
                let (p, x) = (m.some(s, 0), s.word());
                let c = s.size(64);
                s.note(|| format!("write {} bits of {:#x} at {} through a buffer", c, x, p));
                let mut f = BitBuffer::append(v);
                assert!(f.position() == m.n, "BitBuffer::append: position");
                f.seek(p).unwrap();
                f.write_int(c, x).unwrap();
                assert!(f.position() == p + c as u64, "position after writing");
                v = f.into_inner();
                if p + c as u64 > m.n {
                    m.resize(p + c as u64, false);
                }
                m.set(p, c, x);
            }
            _ => {
                let p = m.some(s, 1);
                s.note(|| format!("iterate from {}", p));
                let mut t = v.iter();
                assert!(far_nth(&mut t, p) == Some(m.bit(p)), "nth({})", p);
                exactly(&t, m.n - p - 1);
                assert!(t.next() == if p + 1 < m.n { Some(m.bit(p + 1)) } else { None });
                let want = if p + 2 < m.n { Some(m.bit(m.n - 1)) } else { None };
                assert!(t.next_back() == want, "next_back after nth({})", p);
                assert!(t.clone().last() == if p + 3 < m.n { Some(m.bit(m.n - 2)) } else { None }, "last");
                counts(v.iter(), m.n);
                let x = BitSlice::new(&v, p..);
                assert!(x.bit_len() == m.n - p && x.get_bit(0) == m.bit(p) && x.get_bit(m.n - p - 1) == m.bit(m.n - 1), "slice");
            }
        }
        same_sparse(s, &v, &m);
    }
}

fn sparse_ints<B: Blk>(s: &mut Src) {
    let k = gen_width(s, B::BITS);
    let w = k as u64;
    let b = B::BITS as u64;
    // About a power of two bits, or elements.
    let mut n = near(s, LARGEST);
    if n * w > (1 << LARGEST) + 2000 || s.bool() {
        n /= w;
    }
    let blocks = (n * w + b - 1) / b;
    let mut v: IntVector<B> = IntVector::block_with_fill(k, blocks as usize, B::of(0));
    v.truncate(n);
    let mut m = Sparse::zeros(n * w);
    s.note(|| format!("an integer vector of {} zeros of {} bits, {} blocks", n, k, B::NAME));
    let mut steps = 0;
    while steps < 12 && s.more(9, 10) {
        steps += 1;
        let len = m.n / w;
        match s.idx(10) {
            0 | 1 => {
                let c = s.size(100);
                let x = s.word();
                s.note(|| format!("push {} elements from {:#x}", c, x));
                for i in 0..c as u64 {
                    let e = word(x, i) & low(k);
                    v.push(B::of(e));
                    m.push(k, e);
                }
            }
            2 => {
                let c = s.size(100);
                s.note(|| format!("pop {} elements", c));
                for _ in 0..c {
                    let want = m.get(m.n - w, k);
                    let got = v.pop().map(|x| x.to());
                    assert!(got == Some(want), "pop is {:?}, expected {:#x}", got, want);
                    let n = m.n - w;
                    m.resize(n, false);
                }
            }
            3 => {
                let n = len - s.below(150);
                s.note(|| format!("truncate({})", n));
                v.truncate(n);
                m.resize(n * w, false);
            }
            4 => {
                let n = len + s.below(300) - 150;
                let x = s.bits(k);
                s.note(|| format!("resize({}, {:#x})", n, x));
                v.resize(n, B::of(x));
                let old = len.min(n);
                m.resize(old * w, false);
                for _ in old..n {
                    m.push(k, x);
                }
            }
            5 | 6 => {
                let (i, x) = (m.some(s, w) / w, s.bits(k));
                s.note(|| format!("set({}, {:#x})", i, x));
                assert!(v.get(i).to() == m.get(i * w, k), "get({})", i);
                v.set(i, B::of(x));
                m.set(i * w, k, x);
                assert!(v.get(i).to() == x, "get({}) after setting", i);
            }
            7 => {
                let c = 1 + s.size(B::BITS - 1);
                let off = s.below(100);
                let i = m.some(s, c as u64 + 100) / c as u64;
                let at = off + i * c as u64;
                if at + c as u64 <= m.n {
                    let x = s.bits(c);
                    s.note(|| format!("set_random({}, {}, {}, {:#x})", off, c, i, x));
                    assert!(v.get_random(off, c, i).to() == m.get(at, c), "get_random({}, {}, {})", off, c, i);
                    v.set_random(off, c, i, B::of(x));
                    m.set(at, c, x);
                }
            }
            8 => {
                let n = v.block_len() - s.idx(4);
                s.note(|| format!("block_truncate({})", n));
                if n < v.block_len() {
                    v.block_truncate(n);
                    let left = n as u64 * b / w;
                    m.resize(left * w, false);
                }
            }
            _ => {
                let i = m.some(s, w) / w;
                s.note(|| format!("iterate from {}", i));
                let len = m.n / w;
                let mut t = v.iter();
                assert!(far_nth(&mut t, i).map(|x| x.to()) == Some(m.get(i * w, k)), "nth({})", i);
                exactly(&t, len - i - 1);
                let want = if i + 1 < len { Some(m.get((len - 1) * w, k)) } else { None };
                assert!(t.next_back().map(|x| x.to()) == want, "next_back");
                counts(v.iter(), len);
            }
        }
        assert!(v.len() == m.n / w && v.is_empty() == (m.n == 0), "len is {}, expected {}", v.len(), m.n / w);
        same_sparse_ints(s, &v, &m, k);
    }
}

/// As for bits, but the last block may have room for no whole element.
fn same_sparse_ints<B: Blk>(s: &mut Src, v: &IntVector<B>, m: &Sparse, k: usize) {
    let w = k as u64;
    let len = m.n / w;
    assert!(v.bit_len() == m.n, "bit_len is {}, expected {}", v.bit_len(), m.n);
    for i in len.saturating_sub(3)..len {
        assert!(v.get(i).to() == m.get(i * w, k), "get({}) is {:#x}, expected {:#x}", i, v.get(i).to(), m.get(i * w, k));
    }
    for i in m.ones() {
        for j in [i, i + w, i.wrapping_sub(w), i & 0xFFFF_FFFF, i & 0x7FFF_FFFF] {
            let e = j / w;
            if e < len {
                assert!(v.get(e).to() == m.get(e * w, k), "get({}) is {:#x}, expected {:#x}", e, v.get(e).to(), m.get(e * w, k));
            }
        }
    }
    let i = m.some(s, w) / w;
    s.nontrivial_if(i * w >= 1 << 32);
    assert!(v.get(i).to() == m.get(i * w, k), "get({})", i);
}

/// Blocks of zeros, ones, a half, and three bits, by turns.
struct Striped(u64);

impl Striped {
    fn ones(&self, i: u64) -> u64 {
        let (q, r) = (i / 256, (i % 256) / 64);
        let here = (self.get_block((i / 64) as usize) & low((i % 64) as usize + 1)).count_ones() as u64;
        q * 99 + [0, 0, 64, 96][r as usize] + here
    }
}

impl BitVec for Striped {
    type Block = u64;
    #[inline]
    fn bit_len(&self) -> u64 {
        self.0
    }
    #[inline]
    fn get_block(&self, i: usize) -> u64 {
        match i % 4 {
            0 => 0,
            1 => u64::MAX,
            2 => 0x5555_5555_5555_5555,
            _ => 1 << 63 | 1 << 31 | 1,
        }
    }
}

pub fn giant_ranks() {
    if cfg!(debug_assertions) || engine::cov::instrumented() || cfg!(target_pointer_width = "32") {
        return;
    }
    const N: u64 = (1 << 34) + (1 << 20) + 101;
    fn ask<X: BitRankSupport + Select1Support + Select0Support>(what: &str, x: &X) {
        let m = Striped(N);
        assert!(x.limit() == N, "{}: limit", what);
        let ask = |p: u64| {
            let one = m.get_block((p / 64) as usize) >> (p % 64) & 1 == 1;
            let want = m.ones(p);
            assert!(x.rank1(p) == want, "{} over 2^34 bits: rank1({}) is {}, expected {}", what, p, x.rank1(p), want);
            if one {
                assert!(x.select1(want - 1) == Some(p), "{} over 2^34 bits: select1({}) is {:?}, expected {}", what, want - 1, x.select1(want - 1), p);
            } else {
                let k = p + 1 - want;
                assert!(x.select0(k - 1) == Some(p), "{} over 2^34 bits: select0({}) is {:?}, expected {}", what, k - 1, x.select0(k - 1), p);
            }
        };
        for e in 16..35 {
            for d in 0..600 {
                ask(((1u64 << e) + d).saturating_sub(300).min(N - 1));
            }
        }
        for i in 0..20_000 {
            ask(word(7, i) % N);
        }
        let all = m.ones(N - 1);
        assert!(x.select1(all).is_none() && x.select0(N - all).is_none(), "{}: beyond the last", what);
    }
    ask("Rank9", &BinSearchSelect::new(Rank9::new(Striped(N))));
    ask("JacobsonRank", &BinSearchSelect::new(JacobsonRank::new(Striped(N))));
}

// Vectors in memory.

/// Mostly ones, so that there are more than 2^32 of them.
fn dense(i: u64) -> u64 {
    if i % 64 == 5 { word(99, i) } else { u64::MAX }
}

/// A store that borrows.
struct By<'a>(&'a BitVector<u64>);

impl<'a> BitVec for By<'a> {
    type Block = u64;
    fn bit_len(&self) -> u64 {
        self.0.bit_len()
    }
    fn block_len(&self) -> usize {
        self.0.block_len()
    }
    fn get_bit(&self, i: u64) -> bool {
        self.0.get_bit(i)
    }
    fn get_block(&self, i: usize) -> u64 {
        self.0.get_block(i)
    }
    fn get_bits(&self, i: u64, n: usize) -> u64 {
        self.0.get_bits(i, n)
    }
}

struct Huge {
    bits: BitVector<u64>,
    ints: IntVector<u64>,
    rank9: BinSearchSelect<Rank9<By<'static>>>,
    jacobson: BinSearchSelect<JacobsonRank<By<'static>>>,
    /// Ones before each 2^16 bits.
    prefix: Vec<u64>,
    /// A case that changes the vectors began and did not end well.
    dirty: bool,
}

const WIDTH: usize = 37;

fn make_bits() -> BitVector<u64> {
    let nb = (BIG / 64 + 1) as usize;
    // With room for what is pushed later, as a copy may not fit.
    let mut v: BitVector<u64> = BitVector::block_with_capacity(nb + 64);
    v.block_resize(nb, 0);
    for i in 0..nb {
        v.set_block(i, dense(i as u64));
    }
    v.truncate(BIG);
    v
}

fn make_ints() -> IntVector<u64> {
    let nb = (BIG / 64 + 1) as usize;
    let mut v: IntVector<u64> = IntVector::block_with_capacity(WIDTH, nb + 64);
    v.block_resize(nb, 0);
    for i in 0..v.block_len() {
        v.set_block(i, word(1, i as u64));
    }
    v
}

fn make() -> *mut Huge {
    let mut prefix = Vec::new();
    let mut ones = 0u64;
    for i in 0..BIG / 64 + 1 {
        if i % 1024 == 0 {
            prefix.push(ones);
        }
        ones += dense(i).count_ones() as u64;
    }
    // These vectors stay for good, and never change or move.
    let fixed: &'static BitVector<u64> = Box::leak(Box::new(make_bits()));
    let rank9 = BinSearchSelect::new(Rank9::new(By(fixed)));
    let jacobson = BinSearchSelect::new(JacobsonRank::new(By(fixed)));
    Box::leak(Box::new(Huge { bits: make_bits(), ints: make_ints(), rank9, jacobson, prefix, dirty: false }))
}

fn huge() -> &'static mut Huge {
    static mut HUGE: *mut Huge = std::ptr::null_mut();
    // One thread only.
    let h = unsafe {
        if HUGE.is_null() {
            HUGE = make();
        }
        &mut *HUGE
    };
    if h.dirty {
        h.bits = BitVector::new();
        h.bits = make_bits();
        h.ints = IntVector::new(WIDTH);
        h.ints = make_ints();
        h.dirty = false;
    }
    h
}

fn dbit(i: u64) -> bool {
    dense(i / 64) >> (i % 64) & 1 == 1
}

fn dget(i: u64, c: usize) -> u64 {
    (0..c).fold(0, |r, j| r | (dbit(i + j as u64) as u64) << j)
}

fn wget(i: u64, c: usize) -> u64 {
    (0..c).fold(0, |r, j| r | (bit(1, i + j as u64) as u64) << j)
}

/// Ones up to and including `i`.
fn ones(h: &Huge, i: u64) -> u64 {
    let k = i / 65536;
    let mut r = h.prefix[k as usize];
    for w in k * 1024..i / 64 {
        r += dense(w).count_ones() as u64;
    }
    r + (dense(i / 64) & low((i % 64) as usize + 1)).count_ones() as u64
}

fn far(s: &mut Src, n: u64) -> u64 {
    let p = match s.idx(4) {
        0 => s.big(n),
        1 => n - s.big(n.min(300)),
        2 => ((1 << 32) + s.big(400)).saturating_sub(200).min(n),
        _ => s.draw(n, |r| r.upto(n)),
    };
    s.nontrivial_if(p >= 1 << 32);
    p
}

fn materialised(s: &mut Src) {
    s.label("in memory");
    let h = huge();
    match s.idx(6) {
        0 => {
            s.note(|| "reads of 2^32 + 2^26 + 37 bits".into());
            let v = &h.bits;
            assert!(v.bit_len() == BIG && v.block_len() as u64 == BIG / 64 + 1);
            for _ in 0..6 {
                let c = s.size(64);
                let p = far(s, BIG - 64);
                s.note(|| format!("{} bits at {}", c, p));
                assert!(v.get_bits(p, c) == dget(p, c), "get_bits({}, {})", p, c);
                assert!(v.get_bit(p) == dbit(p), "get_bit({})", p);
                assert!(v.get_block((p / 64) as usize) == dense(p / 64), "get_block({})", p / 64);
                let mut it = v.iter();
                if let Ok(k) = usize::try_from(p) {
                    assert!(it.nth(k) == Some(dbit(p)), "nth({})", p);
                    let left = BIG - p - 1;
                    let (least, most) = it.size_hint();
                    assert!(least as u64 <= left && most.map_or(true, |x| x as u64 >= left),
                        "{:?} after nth({}), expected {}", (least, most), p, left);
                    #[cfg(target_pointer_width = "64")]
                    assert!(it.len() as u64 == left, "len after nth({})", p);
                    let back = s.size(100);
                    assert!(it.rev().nth(back) == if left > back as u64 { Some(dbit(BIG - 1 - back as u64)) } else { None });
                }
            }
        }
        1 => {
            let a = far(s, BIG - 200);
            let c = s.brange(64, BIG - a);
            s.note(|| format!("a slice {}..{}", a, a + c));
            let x = BitSlice::new(&h.bits, a..a + c);
            assert!(x.bit_len() == c);
            for _ in 0..6 {
                let k = s.size(64);
                let p = far(s, c - 64);
                assert!(x.get_bits(p, k) == dget(a + p, k), "get_bits({}, {}) of slice", p, k);
                let i = p / 64;
                assert!(x.get_block(i as usize) & low((c - i * 64).min(64) as usize) == dget(a + i * 64, (c - i * 64).min(64) as usize));
            }
        }
        2 => on_huge_rank(s, "Rank9", &h.rank9, h),
        3 => on_huge_rank(s, "JacobsonRank", &h.jacobson, h),
        4 => {
            s.note(|| "writes to 2^32 + 2^26 + 37 bits, then undone".into());
            h.dirty = true;
            let v = &mut h.bits;
            for _ in 0..4 {
                let c = s.size(64);
                let p = far(s, BIG - 64);
                let x = s.word();
                s.note(|| format!("set_bits({}, {}, {:#x})", p, c, x));
                v.set_bits(p, c, x);
                assert!(v.get_bits(p, c) == x & low(c), "set_bits({}, {}, {:#x})", p, c, x);
                if c < 64 {
                    assert!(v.get_bit(p + c as u64) == dbit(p + c as u64), "the bit after the span set");
                }
                assert!(p == 0 || v.get_bit(p - 1) == dbit(p - 1), "the bit before the span set");
                v.set_bits(p, c, dget(p, c));
                let low_p = p & 0xFFFF_FFFF;
                assert!(v.get_bits(low_p, 64) == dget(low_p, 64), "a write at {} changed {}", p, low_p);
            }
            let k = s.size(130);
            let bits = s.word();
            for i in 0..k {
                v.push_bit(bits >> (i % 64) & 1 == 1);
            }
            assert!(v.bit_len() == BIG + k as u64);
            let extra = s.size(300) as u64;
            v.resize(BIG + k as u64 + extra, true);
            v.truncate(BIG + k as u64);
            for i in (0..k).rev() {
                assert!(v.pop_bit() == Some(bits >> (i % 64) & 1 == 1), "pop_bit of bit {}", BIG + i as u64);
            }
            assert!(v.bit_len() == BIG && v.block_len() as u64 == BIG / 64 + 1);
            assert!(v.get_block((BIG / 64) as usize) == dense(BIG / 64) & low((BIG % 64) as usize), "the last block");
        }
        _ => {
            s.note(|| format!("integers of {} bits over 2^32 bits", WIDTH));
            h.dirty = true;
            let v = &mut h.ints;
            let n = (BIG / 64 + 1) * 64 / WIDTH as u64;
            assert!(v.len() == n, "len is {}, expected {}", v.len(), n);
            let w = WIDTH as u64;
            for _ in 0..6 {
                let i = far(s, n * w - 64) / w;
                s.note(|| format!("element {}", i));
                assert!(v.get(i) == wget(i * w, WIDTH), "get({})", i);
                assert!(v.iter().nth(i as usize) == Some(wget(i * w, WIDTH)), "nth({})", i);
                let (c, off) = (1 + s.size(63), s.big(w));
                let p = (i * w).saturating_sub(off) / c as u64;
                let at = off + p * c as u64;
                if at + c as u64 <= n * w {
                    assert!(v.get_random(off, c, p) == wget(at, c), "get_random({}, {}, {})", off, c, p);
                }
                let x = s.bits(WIDTH);
                v.set(i, x);
                assert!(v.get(i) == x, "set({}, {:#x})", i, x);
                if i > 0 {
                    assert!(v.get(i - 1) == wget((i - 1) * w, WIDTH), "the element before");
                }
                v.set(i, wget(i * w, WIDTH));
            }
            let x = s.bits(WIDTH);
            v.push(x);
            v.push(!x & low(WIDTH));
            assert!(v.get(n) == x && v.len() == n + 2, "push");
            assert!(v.pop() == Some(!x & low(WIDTH)) && v.pop() == Some(x), "pop");
        }
    }
    h.dirty = false;
}

fn on_huge_rank<R, X>(s: &mut Src, what: &str, x: &X, h: &Huge)
where
    X: Lent<R> + BitRankSupport + Select1Support + Select0Support + SelectSupport<Over = bool>,
{
    s.note(|| format!("{} over 2^32 + 2^26 + 37 bits", what));
    assert!(x.limit() == BIG, "{}: limit", what);
    for _ in 0..6 {
        let p = far(s, BIG - 1);
        let want = ones(h, p);
        s.note(|| format!("rank at {}", p));
        assert!(x.rank1(p) == want, "{}: rank1({}) is {}, expected {}", what, p, x.rank1(p), want);
        assert!(x.rank0(p) == p + 1 - want, "{}: rank0({})", what, p);
        if dbit(p) {
            assert!(x.select1(want - 1) == Some(p), "{}: select1({})", what, want - 1);
            assert!(x.select(want - 1, true) == Some(p), "{}: select({}, true)", what, want - 1);
        } else {
            assert!(x.select0(p - want) == Some(p), "{}: select0({})", what, p - want);
        }
    }
    let all = ones(h, BIG - 1);
    let k = all + s.big(u64::MAX - all);
    assert!(all > 1 << 32 && x.select1(k).is_none(), "{}: select1({}) of {}", what, k, all);
    assert!(x.select1(all - 1).is_some(), "{}: the last one", what);
    let q = BIG + s.big(u64::MAX - BIG);
    assert!(catch(|| x.rank1(q)).is_err(), "{}: rank1({}) is accepted", what, q);
}

trait Lent<R> {}
impl<R> Lent<R> for BinSearchSelect<R> {}
