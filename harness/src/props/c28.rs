//! C28: growing is amortised, and single operations touch only what they need.

use common::*;
use common::block::ticks;
use engine::{alloc, Prop, Src};
use std::cell::Cell;
use std::collections::VecDeque;
use std::marker::PhantomData;
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::int_vec::{IntVec, IntVecMut, IntVector};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support};
use succinct::stream::{BitBuffer, BitRead, BitWrite};

pub const PROP: Prop = Prop {
    id: "C28",
    rule: "growth: a bit vector, integer vector or bit buffer (any block type and width; built empty, with \
           capacity, filled or shrunk) to which a pattern of 1 to 6 small steps (pushes of bits, elements \
           and blocks, resizes, ordinary reservations, alignments, pops, truncations, clears, stream writes) \
           is applied up to 60000 times, counting the allocator's calls and bytes: with M the most bytes the \
           contents and reservations needed, at most 4 lg M + 16 calls and 16 M + 4096 bytes. Single \
           operations on vectors, slices, buffers and iterators of up to 60000 user-defined counting blocks: \
           at most 3000 block operations and no allocation except for growth. Default methods, slices and \
           buffers over user stores that count accesses: at most 6 block widths + 32. Directed: \
           on vectors of 2^26 blocks of 8 bits and structures over them, 64 operations of each kind take less \
           than a quarter of a second of processor time (they take microseconds; any pass over the vector \
           would take several milliseconds each). Non-trivial: a growth \
           to at least 40 blocks, or single operations on at least 10000 blocks, or a user store of at \
           least 20 blocks",
    case,
    directed: &[("processor time on long vectors", long)],
};

pub fn case(s: &mut Src) {
    match s.weighted(&[4, 3, 2]) {
        0 => {
            s.label("growth");
            match s.weighted(&[4, 4, 2]) {
                0 => with_any_block!(s, grow_bits(s)),
                1 => with_any_block!(s, grow_ints(s)),
                _ => with_any_block!(s, grow_buffer(s)),
            }
        }
        1 => {
            s.label("single operations");
            match s.weighted(&[4, 4, 2]) {
                0 => one_bits(s),
                1 => one_ints(s),
                _ => one_buffer(s),
            }
        }
        _ => {
            s.label("user store");
            with_any_block!(s, user(s))
        }
    }
}

/// What the allocator was asked, inside `run` only.
#[derive(Default)]
struct Cost {
    calls: usize,
    bytes: usize,
    /// Most bytes that were needed at any time.
    need: u64,
}

impl Cost {
    #[inline]
    fn run<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let (c, b) = (alloc::calls(), alloc::total());
        let r = f();
        self.calls += alloc::calls() - c;
        self.bytes += alloc::total() - b;
        r
    }

    fn needs<B: Blk>(&mut self, bits: u64) {
        let b = B::BITS as u64;
        self.need = self.need.max((bits + b - 1) / b * (b / 8));
    }

    fn check(&self, what: &str, steps: usize) {
        let lg = 64 - self.need.leading_zeros() as usize;
        let (c, b) = (4 * lg + 16, 16 * self.need as usize + 4096);
        assert!(
            self.calls <= c,
            "{}: {} steps needing {} bytes at most took {} allocator calls (at most {} expected)",
            what, steps, self.need, self.calls, c
        );
        assert!(
            self.bytes <= b,
            "{}: {} steps needing {} bytes at most asked the allocator for {} bytes (at most {} expected)",
            what, steps, self.need, self.bytes, b
        );
    }
}

#[derive(Clone, Debug)]
enum Step {
    Push(u64),
    PushBlock(u64),
    Resize(u64, u64),
    BlockResize(usize, u64),
    Reserve(u64),
    BlockReserve(usize),
    Align(bool),
    Pop,
    PopBlock,
    Truncate(u64),
    BlockTruncate(usize),
    Clear,
}

fn pattern(s: &mut Src) -> Vec<Step> {
    use self::Step::*;
    let w = s.swarm(&[8, 4, 4, 3, 5, 5, 2, 3, 1, 2, 1, 1]);
    let mut p = Vec::new();
    while p.is_empty() || p.len() < 6 && s.more(2, 3) {
        p.push(match s.weighted(&w) {
            0 => Push(s.word()),
            1 => PushBlock(s.word()),
            2 => Resize(s.below(70), s.word()),
            3 => BlockResize(s.idx(3), s.word()),
            4 => Reserve(s.below(100)),
            5 => BlockReserve(s.idx(5)),
            6 => Align(s.bool()),
            7 => Pop,
            8 => PopBlock,
            9 => Truncate(s.below(80)),
            10 => BlockTruncate(s.idx(3)),
            _ => {
                if p.len() < 2 || !s.prob(1, 6) {
                    Push(s.word())
                } else {
                    Clear
                }
            }
        });
    }
    p
}

fn times(s: &mut Src, steps: usize) -> usize {
    let n = match s.weighted(&[4, 4, 1]) {
        0 => s.size(600),
        1 => s.size(6000),
        _ => s.size(60_000),
    };
    n / steps + 1
}

fn start<B: Blk>(s: &mut Src, k: u64) -> (u64, u64, bool) {
    // Elements, capacity beyond them, shrunk.
    let b = B::BITS as u64;
    let n = if s.bool() { 0 } else { s.size(1500) as u64 * b / 8 / k };
    let c = if s.bool() { 0 } else { s.size(300) as u64 };
    (n, c, s.prob(1, 4))
}

macro_rules! growth {
    ($s:ident, $v:ident, $p:ident, $b:ident, $k:expr, $what:expr, $push:expr, $pop:expr, $len:expr, $val:expr, $align:expr, $push_block:expr, $pop_block:expr) => {{
        let n = times($s, $p.len());
        let k: u64 = $k;
        let mut c = Cost::default();
        let mut deepest = 0;
        c.needs::<$b>($v.bit_len() + $v.capacity() * k);
        for _ in 0..n {
            for q in $p.iter() {
                match *q {
                    Step::Push(x) => c.run(|| $push(&mut $v, x)),
                    Step::PushBlock(x) => c.run(|| $push_block(&mut $v, x)),
                    Step::Resize(d, x) => {
                        let m = $len(&$v) + d;
                        c.run(|| $v.resize(m, $val(x)))
                    }
                    Step::BlockResize(d, x) => {
                        let m = $v.block_len() + d;
                        c.run(|| $v.block_resize(m, $b::of(x)))
                    }
                    Step::Reserve(d) => {
                        c.needs::<$b>($v.bit_len() + d * k);
                        c.run(|| $v.reserve(d))
                    }
                    Step::BlockReserve(d) => {
                        c.needs::<$b>(($v.block_len() + d) as u64 * $b::BITS as u64);
                        c.run(|| $v.block_reserve(d))
                    }
                    Step::Align(x) => c.run(|| $align(&mut $v, x)),
                    Step::Pop => c.run(|| $pop(&mut $v)),
                    Step::PopBlock => c.run(|| $pop_block(&mut $v)),
                    Step::Truncate(d) => {
                        let m = $len(&$v).saturating_sub(d);
                        c.run(|| $v.truncate(m))
                    }
                    Step::BlockTruncate(d) => {
                        let m = $v.block_len().saturating_sub(d);
                        c.run(|| $v.block_truncate(m))
                    }
                    Step::Clear => c.run(|| $v.clear()),
                }
                c.needs::<$b>($v.bit_len());
                deepest = deepest.max($v.block_len());
            }
        }
        c.check($what, n * $p.len());
        $s.nontrivial_if(deepest >= 40);
        $s.label_if(deepest >= 1000, "over 1000 blocks");
    }};
}

fn grow_bits<B: Blk>(s: &mut Src) {
    let (n, cap, shrunk) = start::<B>(s, 1);
    let mut v: BitVector<B> = if n > 0 { BitVector::with_fill(n, s.bool()) } else { BitVector::with_capacity(cap) };
    if n > 0 {
        v.reserve_exact(cap);
    }
    if shrunk {
        v.shrink_to_fit();
    }
    let p = pattern(s);
    s.note(|| format!("bit vector of {} blocks, {} bits, capacity for {} more, shrunk: {}; repeat {:?}", B::NAME, n, cap, shrunk, p));
    growth!(
        s, v, p, B, 1, "bit vector",
        |v: &mut BitVector<B>, x: u64| v.push_bit(x & 1 == 1),
        |v: &mut BitVector<B>| drop(v.pop_bit()),
        |v: &BitVector<B>| v.bit_len(),
        |x: u64| x & 1 == 1,
        |v: &mut BitVector<B>, x: bool| v.align_block(x),
        |v: &mut BitVector<B>, x: u64| v.push_block(B::of(x)),
        |v: &mut BitVector<B>| if v.block_len() > 0 { v.block_truncate(v.block_len() - 1) }
    );
}

fn grow_ints<B: Blk>(s: &mut Src) {
    let k = gen_width(s, B::BITS);
    let (n, cap, shrunk) = start::<B>(s, k as u64);
    let mut v: IntVector<B> = if n > 0 { IntVector::with_fill(k, n, B::of(s.word() & low(k))) } else { IntVector::with_capacity(k, cap) };
    if n > 0 {
        v.reserve_exact(cap);
    }
    if shrunk {
        v.shrink_to_fit();
    }
    let p = pattern(s);
    s.note(|| format!("integer vector of {} blocks, {} elements of {} bits, capacity for {} more, shrunk: {}; repeat {:?}", B::NAME, n, k, cap, shrunk, p));
    growth!(
        s, v, p, B, k as u64, "integer vector",
        |v: &mut IntVector<B>, x: u64| v.push(B::of(x & low(k))),
        |v: &mut IntVector<B>| drop(v.pop()),
        |v: &IntVector<B>| v.len(),
        |x: u64| B::of(x & low(k)),
        |v: &mut IntVector<B>, x: bool| v.push(B::of(x as u64)),
        |v: &mut IntVector<B>, x: u64| v.push(B::of(x & low(k))),
        |v: &mut IntVector<B>| if v.block_len() > 0 { v.block_truncate(v.block_len() - 1) }
    );
}

fn grow_buffer<B: Blk>(s: &mut Src) {
    let mut m: Vec<bool> = Vec::new();
    let n = if s.bool() { 0 } else { s.size(600) };
    let mut inner: BitVector<B> = BitVector::new();
    for i in 0..n {
        inner.push_bit(i % 3 == 0);
        m.push(i % 3 == 0);
    }
    let mut v = if s.bool() { BitBuffer::append(inner) } else { BitBuffer::from(inner) };
    // Write some bits or integers, seek back a little, read.
    let mut p = Vec::new();
    while p.is_empty() || p.len() < 6 && s.more(2, 3) {
        p.push((s.weighted(&[4, 3, 3, 2, 1]), s.below(65), s.word()));
    }
    let t = times(s, p.len());
    s.note(|| format!("bit buffer over a bit vector of {} blocks, {} bits; repeat {} times {:?}", B::NAME, n, t, p));
    let mut c = Cost::default();
    for _ in 0..t {
        for &(op, k, x) in &p {
            c.run(|| match op {
                0 => v.write_bit(x & 1 == 1).unwrap(),
                1 => v.write_int(k as usize, x).unwrap(),
                2 => v.write_int_be(k as usize, x).unwrap(),
                3 => v.seek(v.position().saturating_sub(k)).unwrap(),
                _ => drop(v.read_bit().unwrap()),
            });
        }
    }
    c.needs::<B>(v.bit_len());
    c.check("bit buffer", t * p.len());
    s.nontrivial_if(v.block_len() >= 40);
}

const TICKS: u64 = 3000;

/// One operation: few block operations, and no allocation unless it grows.
fn one<T>(what: &str, grows: bool, f: impl FnOnce() -> T) -> T {
    let (t, c) = (ticks(), alloc::calls());
    let r = f();
    let (t, c) = (ticks() - t, alloc::calls() - c);
    assert!(t <= TICKS, "{}: {} operations on blocks (at most {} expected)", what, t, TICKS);
    let most = if grows { 2 } else { 0 };
    assert!(c <= most, "{}: {} allocator calls (at most {} expected)", what, c, most);
    r
}

fn blocks(s: &mut Src) -> usize {
    let n = match s.weighted(&[2, 3]) {
        0 => s.size(300),
        _ => s.brange(10_000, 60_000) as usize,
    };
    s.nontrivial_if(n >= 10_000);
    n.max(1)
}

fn one_bits(s: &mut Src) {
    let n = blocks(s);
    let mut v: BitVector<Own> = BitVector::block_with_fill(n, Own(s.word() as u32));
    if s.bool() {
        let cut = s.below(32);
        v.truncate(v.bit_len() - cut);
    }
    s.note(|| format!("bit vector of {} counting blocks, {} bits", n, v.bit_len()));
    let mut steps = 0;
    while steps < 30 && s.more(12, 13) && v.block_len() > 2 {
        steps += 1;
        let len = v.bit_len();
        let i = gen_pos(s, len as usize) as u64;
        let (a, k) = gen_span(s, len as usize, 32);
        let j = gen_pos(s, v.block_len());
        let x = s.word() as u32;
        let op = s.idx(26);
        s.note(|| format!("operation {} at bit {}, span {}+{}, block {}", op, i, a, k, j));
        match op {
            0 => drop(one("get_bit", false, || v.get_bit(i))),
            1 => one("set_bit", false, || v.set_bit(i, x & 1 == 1)),
            2 => drop(one("get_bits", false, || v.get_bits(a as u64, k))),
            3 => one("set_bits", false, || v.set_bits(a as u64, k, Own(x))),
            4 => drop(one("get_block", false, || v.get_block(j))),
            5 => one("set_block", false, || v.set_block(j, Own(x))),
            6 => one("push_bit", true, || v.push_bit(x & 1 == 1)),
            7 => drop(one("pop_bit", false, || v.pop_bit())),
            8 => one("push_block", true, || v.push_block(Own(x))),
            9 => one("align_block", true, || v.align_block(x & 1 == 1)),
            10 => {
                let m = len - s.below(40);
                one("truncate", false, || v.truncate(m))
            }
            11 => {
                let m = len + s.below(40);
                one("resize", true, || v.resize(m, x & 1 == 1))
            }
            12 => {
                let m = v.block_len() - 1;
                one("block_truncate", false, || v.block_truncate(m))
            }
            13 => {
                let m = v.block_len() + 1;
                one("block_resize", true, || v.block_resize(m, Own(x)))
            }
            14 => one("reserve", true, || v.reserve(x as u64 & 0xFF)),
            15 => one("block_reserve", true, || v.block_reserve(x as usize & 7)),
            16 => drop(one("bit_len, block_len, capacity", false, || (v.bit_len(), v.block_len(), v.capacity(), v.block_capacity()))),
            17 => drop(one("iter, next, next_back, size_hint", false, || {
                let mut t = v.iter();
                (t.next(), t.next_back(), t.size_hint(), t.len())
            })),
            18 => drop(one("iter, nth", false, || {
                let mut t = v.iter();
                (t.nth(i as usize), t.next())
            })),
            19 => drop(one("iter, count", false, || v.iter().count())),
            20 => drop(one("iter, last", false, || v.iter().last())),
            21 => drop(one("slice, get_bits, get_block", false, || {
                let t = BitSlice::new(&v, i..);
                let c = 32.min(t.bit_len()) as usize;
                (t.get_bits(0, c), t.get_bit(0), t.get_block(0), t.block_len())
            })),
            22 => drop(one("slice of a slice", false, || {
                let t = BitSlice::new(&v, i..).slice((len - i) / 3..(len - i) / 2);
                t.bit_len()
            })),
            23 => one("slice, set_bits, set_block", false, || {
                let mut t = BitSliceMut::new(&mut v, i..);
                let c = 32.min(t.bit_len()) as usize;
                t.set_bits(0, c, Own(x));
                t.set_bit(0, true);
                t.set_block(0, Own(x))
            }),
            24 => drop(one("eq with a vector of another length", false, || v == BitVector::new())),
            _ => {
                let w: BitVector<Own> = BitVector::new();
                drop(one("cmp with an empty vector", false, || w.cmp(&v)))
            }
        }
    }
}

fn one_ints(s: &mut Src) {
    let n = blocks(s);
    let k = gen_width(s, 32);
    let mut v: IntVector<Own> = IntVector::block_with_fill(k, n, Own(s.word() as u32));
    s.note(|| format!("integer vector of {} counting blocks, {} elements of {} bits", n, v.len(), k));
    let mut steps = 0;
    while steps < 30 && s.more(12, 13) && v.block_len() > 4 {
        steps += 1;
        let len = v.len();
        let i = gen_pos(s, len as usize) as u64;
        let (a, c) = gen_span(s, v.bit_len() as usize, 32);
        let j = gen_pos(s, v.block_len());
        let x = s.word() as u32;
        let e = Own(x & low(k) as u32);
        let op = s.idx(24);
        s.note(|| format!("operation {} at element {}, span {}+{}, block {}", op, i, a, c, j));
        match op {
            0 => drop(one("get", false, || v.get(i))),
            1 => one("set", false, || v.set(i, e)),
            2 => one("push", true, || v.push(e)),
            3 => drop(one("pop", false, || v.pop())),
            4 => {
                let (off, at) = (a as u64 / 2, (a as u64 - a as u64 / 2) / c.max(1) as u64);
                if c > 0 {
                    drop(one("get_random", false, || v.get_random(off, c, at)))
                }
            }
            5 => {
                let (off, at) = (a as u64 / 2, (a as u64 - a as u64 / 2) / c.max(1) as u64);
                if c > 0 {
                    one("set_random", false, || v.set_random(off, c, at, Own(x & low(c) as u32)))
                }
            }
            6 => drop(one("get_bit", false, || v.get_bit(a as u64 * 9 / 10))),
            7 => one("set_bit", false, || v.set_bit(a as u64 * 9 / 10, x & 1 == 1)),
            8 => drop(one("get_bits", false, || v.get_bits(a as u64, c))),
            9 => one("set_bits", false, || v.set_bits(a as u64, c, Own(x))),
            10 => drop(one("get_block", false, || v.get_block(j))),
            11 => one("set_block", false, || v.set_block(j, Own(x))),
            12 => {
                let m = len - s.below(40).min(len / 2);
                one("truncate", false, || v.truncate(m))
            }
            13 => {
                let m = len + s.below(40);
                one("resize", true, || v.resize(m, e))
            }
            14 => {
                let m = v.block_len() - 1;
                one("block_truncate", false, || v.block_truncate(m))
            }
            15 => {
                let m = v.block_len() + 1;
                one("block_resize", true, || v.block_resize(m, Own(x)))
            }
            16 => one("reserve", true, || v.reserve(x as u64 & 0xFF)),
            17 => one("block_reserve", true, || v.block_reserve(x as usize & 7)),
            18 => drop(one("len, bit_len, block_len, capacity", false, || {
                (v.len(), v.bit_len(), v.block_len(), v.capacity(), v.block_capacity(), v.element_bits(), v.is_empty())
            })),
            19 => drop(one("iter, next, next_back, size_hint", false, || {
                let mut t = v.iter();
                (t.next(), t.next_back(), t.size_hint(), t.len())
            })),
            20 => drop(one("iter, nth", false, || {
                let mut t = v.iter();
                (t.nth(i as usize), t.next())
            })),
            21 => drop(one("iter, count", false, || v.iter().count())),
            22 => drop(one("iter, last", false, || v.iter().last())),
            _ => drop(one("slice, get_bits, get_block", false, || {
                let t = BitSlice::new(&v, a as u64..);
                let c = 32.min(t.bit_len()) as usize;
                (t.get_bits(0, c), t.block_len())
            })),
        }
    }
}

fn one_buffer(s: &mut Src) {
    let n = blocks(s);
    let v: BitVector<Own> = BitVector::block_with_fill(n, Own(s.word() as u32));
    let mut v = if s.bool() { BitBuffer::append(v) } else { BitBuffer::from(v) };
    s.note(|| format!("bit buffer of {} counting blocks", n));
    let mut steps = 0;
    while steps < 30 && s.more(12, 13) {
        steps += 1;
        let i = s.size(v.bit_len() as usize) as u64;
        let k = s.idx(33);
        let x = s.word();
        let op = s.idx(9);
        s.note(|| format!("operation {}, {} bits, position {}", op, k, i));
        match op {
            0 => drop(one("read_bit", false, || v.read_bit().unwrap())),
            1 => one("write_bit", true, || v.write_bit(x & 1 == 1).unwrap()),
            2 => one("seek", false, || v.seek(i).unwrap()),
            3 => {
                if v.position() + 64 < v.bit_len() {
                    drop(one("read_int", false, || v.read_int::<u32>(k).unwrap()))
                }
            }
            4 => {
                if v.position() + 64 < v.bit_len() {
                    drop(one("read_int_be", false, || v.read_int_be::<u32>(k).unwrap()))
                }
            }
            5 => one("write_int", true, || v.write_int(k, x).unwrap()),
            6 => one("write_int_be", true, || v.write_int_be(k, x).unwrap()),
            7 => drop(one("position", false, || (v.position(), v.inner().bit_len()))),
            _ => {
                let j = gen_pos(s, v.block_len());
                drop(one("get_block", false, || v.get_block(j)));
                one("set_block", false, || v.set_block(j, Own(x as u32)))
            }
        }
    }
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Processor time this thread has used.
fn cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    assert_eq!(unsafe { clock_gettime(3, &mut t) }, 0);
    t.sec as f64 + t.nsec as f64 * 1e-9
}

/// Runs `f` 64 times; the best of three tries has to be quick.
fn quick<R>(what: &str, mut f: impl FnMut(u64) -> R) {
    let mut best = f64::MAX;
    for t in 0..3 {
        let began = cpu();
        for i in 0..64 {
            std::hint::black_box(f(std::hint::black_box(t * 64 + i)));
        }
        best = best.min(cpu() - began);
        if best < 0.25 {
            return;
        }
    }
    panic!("{}: 64 times on a vector of 2^26 blocks took {:.2} s of processor time", what, best);
}

/// Single operations on a vector of 2^26 bits, and on slices of it.
fn bools<V: BitVecMut<Block = u8> + ?Sized>(what: &str, v: &mut V) {
    const N: u64 = 1 << 26;
    quick(what, |i| {
        v.set_bit(N - 1 - i, i & 1 == 1);
        v.set_bits(N / 2 + i, 8, 0x77);
        v.set_block(N as usize / 16, 0x5A);
        (v.get_bit(N - 1 - i), v.get_bits(N / 2 + i, 8), v.get_block(N as usize / 8 - 1), v.bit_len(), v.block_len())
    });
    let mut t = BitSliceMut::new(v, 3..);
    quick(what, |i| {
        t.set_bit(N - 4 - i, i & 1 == 1);
        t.set_bits(N / 2 + i, 8, 0x77);
        t.set_block(N as usize / 16, 0x5A);
        (t.get_bit(N - 4 - i), t.get_bits(N / 2 + i, 8), t.get_block(N as usize / 8 - 1), t.bit_len(), t.block_len())
    });
}

/// What counting operations on blocks misses: passes that do none.
fn long() {
    const N: usize = 1 << 26;
    let mut v: BitVector<u8> = BitVector::block_with_fill(N, 0x5A);
    // Room, so that pushing need not move everything.
    v.block_reserve(4000);
    let bits = v.bit_len();
    quick("BitVector: get_bit, get_bits, get_block", |i| (v.get_bit(bits - 1 - i), v.get_bits(bits / 2 + i, 8), v.get_block(N - 1)));
    quick("BitVector: lengths and capacities", |_| (v.bit_len(), v.block_len(), v.capacity(), v.block_capacity()));
    quick("BitVector: set_bit, set_bits", |i| {
        v.set_bit(bits - 1 - i, true);
        v.set_bits(bits - 300 + i, 8, 0x77)
    });
    quick("BitVector: set_block", |i| {
        v.set_block(N - 1, i as u8);
        v.set_block(0, 0x5A)
    });
    quick("BitVector: push_bit, pop_bit", |i| {
        v.push_bit(i & 1 == 1);
        v.pop_bit()
    });
    quick("BitVector: push_block, truncate", |i| {
        v.push_block(i as u8);
        v.truncate(bits)
    });
    quick("BitVector: align_block, block_truncate", |i| {
        v.push_bit(true);
        v.align_block(i & 1 == 1);
        v.block_truncate(N)
    });
    quick("BitVector: resize, block_resize", |i| {
        v.resize(bits + 20 + i, true);
        v.block_resize(N + 20, 3);
        v.resize(bits + 7, true);
        v.block_resize(N, 3)
    });
    quick("BitVector: reserve, block_reserve", |i| {
        v.reserve(i);
        v.block_reserve(i as usize)
    });
    quick("BitVector: iter", |i| {
        (v.iter().count(), v.iter().last(), v.iter().nth((bits - 1 - i) as usize), v.iter().len(), v.iter().next_back(), v.iter().nth(i as usize))
    });
    quick("BitSlice", |i| {
        let t = BitSlice::new(&v, i..);
        (t.get_bit(bits / 2), t.get_bits(bits / 2, 8), t.get_block(N / 2), t.slice(5..).bit_len(), t.block_len())
    });
    quick("BitSliceMut", |i| {
        let mut t = BitSliceMut::new(&mut v, i..);
        t.set_bit(bits / 2, true);
        t.set_bits(bits / 2, 8, 0x5A);
        t.set_block(N / 2, 0x5A)
    });
    quick("eq and cmp with a short vector", |_| {
        let w: BitVector<u8> = BitVector::new();
        (v == w, w.cmp(&v))
    });
    let mut b = BitBuffer::from(v);
    quick("BitBuffer", |i| {
        b.seek(bits - 200).unwrap();
        b.write_int(7, i).unwrap();
        b.write_bit(true).unwrap();
        b.seek(bits / 2).unwrap();
        (b.read_bit().unwrap(), b.read_int::<u64>(60).unwrap(), b.position())
    });
    let v = b.into_inner();

    let j = JacobsonRank::new(v);
    quick("JacobsonRank", |i| (j.rank1(bits - 1 - i), j.rank0(bits / 2), j.rank(i, true), j.limit(), j.bit_len()));
    let ones = j.rank1(bits - 1);
    quick("JacobsonRank as a bit vector", |i| (j.get_bit(bits - 1 - i), j.get_bits(bits / 2, 8), j.get_block(N - 1), j.block_len(), j.inner().bit_len()));
    let j = BinSearchSelect::new(j);
    quick("BinSearchSelect as a bit vector and rank structure", |i| {
        (j.get_bit(bits - 1 - i), j.get_bits(bits / 2, 8), j.get_block(N - 1), j.rank1(bits - 1), j.rank0(i), j.inner().limit())
    });
    quick("BinSearchSelect over JacobsonRank", |i| (j.select1(ones - 1 - i), j.select0(i), j.select1(ones / 2), j.select1(ones + i)));
    drop(j);

    let mut v: IntVector<u8> = IntVector::with_fill(5, 1 << 25, 21);
    v.reserve(4000);
    let len = v.len();
    quick("IntVector: get, set", |i| {
        v.set(len - 1 - i, 9);
        v.set(i, 9);
        (v.get(len - 1 - i), v.get(len / 2), v.get_bits(len, 8), v.get_block(1 << 20))
    });
    quick("IntVector: push, pop", |i| {
        v.push(i as u8 & 31);
        v.pop()
    });
    quick("IntVector: resize, truncate", |i| {
        v.resize(len + i, 3);
        v.truncate(len)
    });
    quick("IntVector: block_resize, block_truncate", |i| {
        let n = v.block_len();
        v.block_resize(n + i as usize, 3);
        v.block_truncate(n)
    });
    quick("IntVector: lengths, capacities and reserve", |i| {
        v.reserve(i);
        (v.len(), v.bit_len(), v.block_len(), v.capacity(), v.block_capacity(), v.is_empty())
    });
    quick("IntVector: iter", |i| {
        (v.iter().count(), v.iter().last(), v.iter().nth((len - 1 - i) as usize), v.iter().len(), v.iter().next_back())
    });
    quick("IntVector: get_random, set_random", |i| {
        v.set_random(1, 7, len / 2 + i, 99);
        v.set_random(len * 5 - 7, 7, 0, 99);
        (v.get_random(1, 7, len / 2), v.get_random(len * 5 - 7, 7, 0))
    });
    drop(v);

    let mut v = vec![true; N];
    v.reserve(4000);
    bools("Vec<bool>", &mut v);
    quick("Vec<bool>: push_bit, pop_bit, align_block, push_block", |i| {
        v.push_bit(i & 1 == 1);
        v.align_block(false);
        BitVecPush::push_block(&mut v, i as u8);
        for _ in 0..16 {
            v.pop_bit();
        }
    });
    let mut b = BitBuffer::append(v);
    quick("BitBuffer<Vec<bool>>", |i| {
        b.write_bit(true).unwrap();
        b.seek(N as u64 / 2).unwrap();
        b.write_int(5, i).unwrap();
        let x = b.read_int::<u64>(60).unwrap();
        b.seek(b.bit_len() - 3).unwrap();
        (x, b.read_bit().unwrap(), b.position())
    });
    let v = b.into_inner();
    let mut v = VecDeque::from(v);
    v.reserve(4000);
    quick("VecDeque<bool>", |i| {
        v.write_int(20, i).unwrap();
        v.write_bit(true).unwrap();
        (v.read_int::<u64>(20).unwrap(), v.read_bit().unwrap())
    });
    drop(v);

    let mut v = vec![0x5Au8; N / 8];
    bools("Vec<u8>", &mut v);
    bools("[u8]", &mut v[..]);
    bools("&mut [u8]", &mut &mut v[..]);
    quick("&[u8]", |i| {
        let t: &[u8] = &v;
        (BitVec::get_bit(&t, N as u64 - 1 - i), BitVec::get_bits(&t, N as u64 / 2 + i, 8), t.get_block(N / 8 - 1), t.bit_len())
    });
    drop(v);

    let v: BitVector<u64> = BitVector::block_with_fill(N / 8, 0x5A5A_5A5A_5A5A_5A5A);
    let r = Rank9::new(v);
    quick("Rank9", |i| (r.rank1(bits - 1 - i), r.rank0(bits / 2), r.rank(i, true), r.limit(), r.bit_len()));
    let r = BinSearchSelect::new(r);
    quick("BinSearchSelect over Rank9", |i| (r.select1(ones - 1 - i), r.select0(i), r.select1(ones / 2), r.select1(ones + i)));
}

/// A store that gives bits or blocks only, and counts the accesses.
struct Store<B> {
    w: Vec<u64>,
    n: u64,
    touched: Cell<u64>,
    p: PhantomData<B>,
}

impl<B: Blk> Store<B> {
    fn new(n: u64, x: u64) -> Self {
        Store { w: vec![x & low(B::BITS); nblocks::<B>(n as usize)], n, touched: Cell::new(0), p: PhantomData }
    }
    fn touch(&self) {
        self.touched.set(self.touched.get() + 1);
    }
    fn bit(&self, i: u64) -> bool {
        self.touch();
        assert!(i < self.n, "Store: out of bounds");
        self.w[(i / B::BITS as u64) as usize] >> (i % B::BITS as u64) & 1 == 1
    }
    fn put(&mut self, i: u64, v: bool) {
        self.touch();
        assert!(i < self.n, "Store: out of bounds");
        let o = i % B::BITS as u64;
        let w = &mut self.w[(i / B::BITS as u64) as usize];
        *w = *w & !(1 << o) | (v as u64) << o;
    }
}

struct ByBits<B>(Store<B>);
struct ByBlocks<B>(Store<B>);

impl<B: Blk> BitVec for ByBits<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.0.n
    }
    fn get_bit(&self, i: u64) -> bool {
        self.0.bit(i)
    }
}
impl<B: Blk> BitVecMut for ByBits<B> {
    fn set_bit(&mut self, i: u64, v: bool) {
        self.0.put(i, v)
    }
}
impl<B: Blk> BitVec for ByBlocks<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.0.n
    }
    fn get_block(&self, i: usize) -> B {
        self.0.touch();
        B::of(self.0.w[i])
    }
}
impl<B: Blk> BitVecMut for ByBlocks<B> {
    fn set_block(&mut self, i: usize, v: B) {
        self.0.touch();
        self.0.w[i] = v.to();
    }
}

fn user<B: Blk>(s: &mut Src) {
    let n = 1 + s.size(100_000) as u64;
    s.nontrivial_if(n >= 20 * B::BITS as u64);
    let x = s.word();
    if s.bool() {
        s.note(|| format!("a store of {} bits in {} blocks, defining bit access only", n, B::NAME));
        user_with(s, ByBits(Store::<B>::new(n, x)), |t| &t.0.touched);
    } else {
        s.note(|| format!("a store of {} bits in {} blocks, defining block access only", n, B::NAME));
        user_with(s, ByBlocks(Store::<B>::new(n, x)), |t| &t.0.touched);
    }
}

fn user_with<B: Blk, V: BitVecMut<Block = B>>(s: &mut Src, mut v: V, touched: fn(&V) -> &Cell<u64>) {
    let most = 6 * B::BITS as u64 + 32;
    for _ in 0..8 {
        let n = v.bit_len();
        let i = gen_pos(s, n as usize) as u64;
        let (a, k) = gen_span(s, n as usize, B::BITS);
        let a = a as u64;
        let j = gen_pos(s, v.block_len());
        let x = B::of(s.word());
        let op = s.idx(12);
        touched(&v).set(0);
        let what = match op {
            0 => {
                v.get_bit(i);
                "get_bit"
            }
            1 => {
                v.set_bit(i, true);
                "set_bit"
            }
            2 => {
                v.get_bits(a, k);
                "get_bits"
            }
            3 => {
                v.set_bits(a, k, x);
                "set_bits"
            }
            4 => {
                v.get_block(j);
                "get_block"
            }
            5 => {
                v.set_block(j, x);
                "set_block"
            }
            6 => {
                BitSlice::new(&v, i..).get_block(0);
                "get_block of a slice"
            }
            7 => {
                BitSlice::new(&v, a..).get_bits(0, k);
                "get_bits of a slice"
            }
            8 => {
                BitSliceMut::new(&mut v, i..).set_block(0, x);
                "set_block of a slice"
            }
            9 => {
                BitSliceMut::new(&mut v, a..).set_bits(0, k, x);
                "set_bits of a slice"
            }
            10 => {
                let mut t = BitSliceMut::new(&mut v, i..);
                let mut u = t.slice_mut(..);
                u.set_bit(0, true);
                "set_bit of a slice of a slice"
            }
            _ => {
                v.block_len();
                v.bit_len();
                "block_len, bit_len"
            }
        };
        let t = touched(&v).get();
        s.note(|| format!("{}: {} accesses", what, t));
        assert!(t <= most, "{}: {} accesses to the underlying store (at most {} expected)", what, t, most);
    }
}
