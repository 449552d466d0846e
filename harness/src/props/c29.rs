//! C29: coding and queries need little memory, and leave none behind.

use byteorder::{BigEndian, LittleEndian};
use common::codes::{gen_kind, gen_value, Enc};
use common::*;
use engine::{alloc, Prop, Rng, Src};
use std::collections::hash_map::DefaultHasher;
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};
use std::io::{self, Cursor, ErrorKind, Result};
use std::marker::PhantomData;
use succinct::bit_vec::{BitSlice, BitVec, BitVecPush, BitVector};
use succinct::int_vec::{IntVec, IntVector};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::stream::{BitRead, BitWrite};
use succinct::SpaceUsage;

pub const PROP: Prop = Prop {
    id: "C29",
    rule: "with an allocator that counts bytes: encoding any value in any code into a sink that keeps \
           nothing; decoding inputs (codewords, random, constant, periodic and mutated bits, up to 2^21 bits) \
           from a source that is not in memory; integers and blocks to and from streams: at most 16 KiB \
           held at any time and nothing afterwards. Building Jacobson rank or Rank9 over a computed store of \
           up to 2^21 bits: at most 4 times the memory they end with + 4096 bytes at any time, in at most 64 \
           allocator calls. Ranks, selects, reads, iteration, comparison, hashing and rendering of \
           generated structures: no allocator call (rendering: 4 KiB). A clone holds at most what its \
           original holds. Non-trivial: an input of over 64 bits, a structure of over 1000 bits, or a value \
           of over 16 bits",
    case,
    directed: &[("long runs", long_runs)],
};

const MOST: isize = 16 << 10;

/// Runs `f`; at most `most` bytes are held at any time, none afterwards.
fn frugal<T>(what: &str, most: isize, f: impl FnOnce() -> T) {
    alloc::reset_peak();
    let l = alloc::live();
    drop(f());
    let (p, a) = (alloc::peak() - l, alloc::live() - l);
    assert!(p <= most, "{}: holds {} bytes at a time (at most {} expected)", what, p, most);
    assert!(a == 0, "{}: leaves {} bytes allocated", what, a);
}

/// Runs `f`, which asks nothing of the allocator.
fn free<T>(what: &str, f: impl FnOnce() -> T) -> T {
    let c = alloc::calls();
    let r = f();
    let c = alloc::calls() - c;
    assert!(c == 0, "{}: {} allocator calls (none expected)", what, c);
    r
}

/// Counts bits and remembers none.
struct Null {
    n: u64,
    most: u64,
}

impl BitWrite for Null {
    fn write_bit(&mut self, _: bool) -> Result<()> {
        if self.n == self.most {
            return Err(io::Error::from(ErrorKind::WriteZero));
        }
        self.n += 1;
        Ok(())
    }
}

/// Bits that are computed when asked for.
#[derive(Clone, Debug)]
struct Computed {
    /// These first, then `shape`.
    head: u64,
    heads: u64,
    shape: u64,
    word: u64,
    period: u64,
    n: u64,
    pos: u64,
}

impl Computed {
    fn bit(&self, i: u64) -> bool {
        if i < self.heads {
            return self.head >> i & 1 == 1;
        }
        match self.shape {
            0 => false,
            1 => true,
            2 => self.word >> (i % self.period) & 1 == 1,
            3 => i + 2 >= self.n,
            _ => Rng::new(&[self.word, i / 64]).next() >> (i % 64) & 1 == 1,
        }
    }
}

impl BitRead for Computed {
    fn read_bit(&mut self) -> Result<Option<bool>> {
        if self.pos == self.n {
            return Ok(None);
        }
        self.pos += 1;
        Ok(Some(self.bit(self.pos - 1)))
    }
}

fn computed(s: &mut Src) -> Computed {
    let n = if s.rare(40) { s.size(1 << 21) } else { s.size(4000) } as u64;
    let heads = s.below(65).min(n);
    Computed { head: s.word(), heads, shape: s.below(5), word: s.word(), period: s.range(1, 64), n, pos: 0 }
}

pub fn case(s: &mut Src) {
    match s.weighted(&[4, 5, 2, 3, 6]) {
        0 => encode(s),
        1 => decode(s),
        2 => transfers(s),
        3 => build(s),
        _ => with_any_block!(s, queries(s)),
    }
}

fn encode(s: &mut Src) {
    s.label("encode");
    for _ in 0..4 {
        let k = gen_kind(s);
        let r = k.reference();
        let v = gen_value(s, &r);
        s.nontrivial_if(v >> 16 != 0);
        let cut = if s.bool() { u64::MAX } else { s.below(100) };
        s.note(|| format!("encode {} with {:?} into a sink of {} bits", v, r, cut));
        if let Enc::Bits(_) = r.encode(v) {
            let mut w = Null { n: 0, most: cut };
            frugal("encoding", MOST, || k.encode(&mut w, v));
        }
    }
}

fn decode(s: &mut Src) {
    s.label("decode");
    let c = computed(s);
    s.nontrivial_if(c.n > 64);
    let k = gen_kind(s);
    s.note(|| format!("decode with {:?} from {:?}", k.reference(), c));
    let mut c = c;
    for _ in 0..8 {
        let before = c.pos;
        frugal("decoding", MOST, || k.decode(&mut c));
        if c.pos == before {
            break;
        }
    }
}

fn long_runs() {
    use common::codes::Kind;
    for k in 0..common::codes::KINDS {
        for (shape, n) in [(0, 1u64 << 21), (1, 1 << 21), (3, 1 << 21), (3, 100), (0, 64), (0, 65)] {
            for heads in [0, 1, 3] {
                let mut c = Computed { head: 2, heads, shape, word: 0, period: 1, n, pos: 0 };
                let k = Kind(k, 3);
                frugal("decoding a long run", MOST, || k.decode(&mut c));
            }
        }
    }
    let mut w = Null { n: 0, most: 1 << 21 };
    frugal("encoding a large unary number", MOST, || Kind(0, 2).encode(&mut w, u64::MAX / 2));
}

fn transfers(s: &mut Src) {
    s.label("integers and blocks");
    let mut c = computed(s);
    s.nontrivial_if(c.n > 64);
    let n = s.idx(65);
    s.note(|| format!("integers of {} bits from {:?}", n, c));
    frugal("read_int", MOST, || c.read_int::<u64>(n));
    frugal("read_int_be", MOST, || c.read_int_be::<u64>(n));
    let x = s.word();
    let cut = s.below(100);
    frugal("write_int", MOST, || Null { n: 0, most: cut }.write_int(n, x));
    frugal("write_int_be", MOST, || Null { n: 0, most: cut }.write_int_be(n, x));
    let bytes = x.to_le_bytes();
    let k = s.idx(9);
    macro_rules! block {
        ($($t:ty)+) => { $(
            frugal("read_block", MOST, || {
                let mut r: &[u8] = &bytes[..k];
                <$t as succinct::storage::BlockType>::read_block::<_, BigEndian>(&mut r)
            });
            frugal("write_block", MOST, || {
                let mut out = [0u8; 8];
                let mut w = Cursor::new(&mut out[..k]);
                succinct::storage::BlockType::write_block::<_, LittleEndian>(&<$t as Blk>::of(x), &mut w)
            });
        )+ }
    }
    block!(u8 u16 u32 u64 usize Own);
}

/// A store in no memory.
struct Virtual<B>(Computed, PhantomData<B>);

impl<B: Blk> BitVec for Virtual<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.0.n
    }
    fn get_bit(&self, i: u64) -> bool {
        assert!(i < self.0.n, "Virtual: out of bounds");
        self.0.bit(i)
    }
    fn get_block(&self, i: usize) -> B {
        let mut x = 0;
        let a = i as u64 * B::BITS as u64;
        for j in a..self.0.n.min(a + B::BITS as u64) {
            x |= (self.0.bit(j) as u64) << (j - a);
        }
        B::of(x)
    }
}

impl<B> SpaceUsage for Virtual<B> {
    fn is_stack_only() -> bool {
        true
    }
    fn heap_bytes(&self) -> usize {
        0
    }
}

fn building<T>(what: &str, f: impl FnOnce() -> T) -> T {
    alloc::reset_peak();
    let (l, c) = (alloc::live(), alloc::calls());
    let r = f();
    let (p, a, c) = (alloc::peak() - l, alloc::live() - l, alloc::calls() - c);
    assert!(p <= 4 * a + 4096, "{}: holds {} bytes at a time, and {} in the end", what, p, a);
    assert!(c <= 64, "{}: {} allocator calls", what, c);
    r
}

fn build(s: &mut Src) {
    s.label("build");
    let c = computed(s);
    s.nontrivial_if(c.n > 1000);
    s.note(|| format!("rank structures over {:?}", c));
    fn jac<B: Blk>(c: &Computed) {
        let c = Virtual::<B>(c.clone(), PhantomData);
        let n = c.0.n;
        let r = building("building Jacobson rank", || JacobsonRank::new(c));
        asks("Jacobson rank", &r, n);
    }
    with_block!(s, jac(&c));
    let n = c.n;
    let r = building("building Rank9", || Rank9::new(Virtual::<u64>(c, PhantomData)));
    asks("Rank9", &r, n);
}

fn asks<R: BitRankSupport + RankSupport<Over = bool>>(what: &str, r: &R, n: u64) {
    free(what, || {
        for i in [0, n / 2, n.saturating_sub(1)] {
            if i < n {
                r.rank1(i);
                r.rank0(i);
                r.rank(i, true);
            }
        }
        r.limit()
    });
}

/// Counts what it is given.
struct Text(usize);

impl fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

fn queries<B: Blk>(s: &mut Src) {
    s.label("queries");
    let n = gen_len(s, 4000);
    s.nontrivial_if(n > 1000);
    let m = gen_bits(s, n);
    let k = gen_width(s, B::BITS);
    let mut v: BitVector<B> = BitVector::new();
    let mut b: BitVector<u64> = BitVector::new();
    let mut iv: IntVector<B> = IntVector::new(k);
    for (i, &x) in m.iter().enumerate() {
        v.push_bit(x);
        b.push_bit(x);
        if i * k < n {
            iv.push(B::of(mget(&m, i, k.min(n - i))));
        }
    }
    s.note(|| format!("{} bits, {} blocks, {} integers of {} bits: {}", n, B::NAME, iv.len(), k, show(&m)));

    fn held<T>(what: &str, x: &T, f: impl FnOnce(&T) -> T, g: impl FnOnce(&T) -> usize) -> T {
        let l = alloc::live();
        let c = f(x);
        let a = alloc::live() - l;
        let h = g(x) as isize;
        assert!(a <= h, "a clone of {} holds {} bytes, its original {}", what, a, h);
        c
    }
    let v2 = held("a bit vector", &v, |v| v.clone(), |v| v.heap_bytes());
    let iv2 = held("an integer vector", &iv, |v| v.clone(), |v| v.heap_bytes());
    let j = JacobsonRank::new(v.clone());
    drop(held("Jacobson rank", &j, |v| v.clone(), |v| v.heap_bytes()));
    let r = Rank9::new(b);
    drop(held("Rank9", &r, |v| v.clone(), |v| v.heap_bytes()));

    let mut ij = 0;
    let mut span = (0, 0);
    if n > 0 {
        ij = gen_pos(s, n);
        span = gen_span(s, n, B::BITS);
    }
    let q = s.size(n) as u64;
    let (i, (a, c)) = (ij as u64, span);
    if n > 0 {
        free("reads", || {
            (v.get_bit(i), v.get_bits(a as u64, c), v.get_block(ij / B::BITS), v.bit_len(), v.block_len());
            let t = BitSlice::new(&v, a as u64..);
            (t.get_bits(0, c), t.slice(0..c as u64).bit_len(), t.block_len());
            iv.get(i * iv.len() / n as u64 * (!iv.is_empty()) as u64)
        });
        free("ranks", || (j.rank1(i), j.rank0(i), j.rank(i, true), r.rank1(i), r.rank0(i), r.rank(i, false)));
    }
    free("space", || (v.total_bytes(), iv.total_bytes(), j.total_bytes(), r.total_bytes(), v.capacity(), iv.capacity()));
    free("iteration", || {
        let mut h = v.iter().filter(|&b| b).count() as u64;
        h += v.iter().rev().filter(|&b| b).count() as u64;
        h += iv.iter().map(|x| x.to() & 1).sum::<u64>();
        h + v.iter().nth(ij).is_some() as u64
    });
    free("comparison and hashing", || {
        assert!(v == v2 && iv == iv2);
        let mut d = DefaultHasher::new();
        v.hash(&mut d);
        iv.hash(&mut d);
        (v.cmp(&v2), iv.partial_cmp(&iv2), d.finish())
    });
    let (sj, sr) = (BinSearchSelect::new(j), BinSearchSelect::new(r));
    free("selects", || {
        (sj.select1(q), sj.select0(q), sj.select(q, true), sr.select1(q), sr.select0(q), sr.select(q, false), sr.limit())
    });
    frugal("rendering", 4096, || {
        let mut t = Text(0);
        write!(t, "{:?} {:b} {:?}", v, v, iv).unwrap();
    });
}
