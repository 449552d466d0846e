//! C27: structures can be moved to and shared between threads.

use common::codes::{gen_kind, gen_value, Enc, Kind};
use common::*;
use engine::{catch, Prop, Src};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Barrier;
use succinct::bit_vec::{BitSlice, BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::broadword::Broadword;
use succinct::coding::{Comma, Elias, Fibonacci, Lift0, Omega, Unary};
use succinct::int_vec::{IntVec, IntVector};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::storage::Address;
use succinct::stream::BitBuffer;
use succinct::SpaceUsage;

pub const PROP: Prop = Prop {
    id: "C27",
    rule: "bit and integer vectors, slices, Jacobson rank, Rank9 and select structures over generated bits \
           (any block type), shared by 2 to 4 threads that start together and each go through up to 60 \
           queries in an order and with a stride of their own, again and again (at least 600 queries each): \
           bits, spans, blocks, elements, ranks, selects, iteration, comparison, hashing, rendering, cloning, \
           space, building a rank structure on the shared vector, coding values in a buffer of their own, \
           and changing a vector of their own; every answer equals the model's. When a failure is repeated, \
           30 times as often. Fixed scenario: every public type over parts that can be sent or shared can \
           be. Non-trivial: at least 100 bits and 3 kinds of queries",
    case,
    directed: &[("send and sync", send_and_sync)],
};

#[derive(Clone, Debug)]
enum Q {
    Bit(u64),
    Bits(u64, usize),
    Block(usize),
    Get(u64),
    SliceBits(u64, usize, u64),
    Rank(usize, u64, bool),
    Select(usize, u64, bool),
    Iter(usize),
    IntIter(usize),
    Same,
    Hash,
    Show,
    Copy(u64),
    Space,
    Build(u64),
    Code(Kind, u64),
    Own(Vec<(u8, u64)>),
    Word(u64, u64),
}

const KINDS: usize = 18;

struct Set<B: Blk> {
    bits: BitVector<B>,
    same: BitVector<B>,
    ints: IntVector<B>,
    jac: JacobsonRank<BitVector<B>>,
    r9: Rank9<BitVector<u64>>,
    sel: BinSearchSelect<JacobsonRank<BitVector<B>>>,
    sel9: BinSearchSelect<Rank9<BitVector<u64>>>,
}

/// Shared whatever the compiler says (a fixed scenario tests that it agrees).
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}

fn h<T: Hash>(x: &T) -> u64 {
    let mut d = DefaultHasher::new();
    x.hash(&mut d);
    d.finish()
}

fn text(s: &str) -> u64 {
    h(&s.to_string())
}

fn opt(x: Option<u64>) -> u64 {
    x.map_or(u64::MAX, |x| x)
}

impl<B: Blk> Set<B> {
    /// The answer to a query, as a number.
    fn ask(&self, q: &Q) -> u64 {
        match *q {
            Q::Bit(i) => self.bits.get_bit(i) as u64,
            Q::Bits(a, k) => self.bits.get_bits(a, k).to(),
            Q::Block(i) => self.bits.get_block(i).to(),
            Q::Get(i) => self.ints.get(i).to(),
            Q::SliceBits(a, k, off) => BitSlice::new(&self.bits, a - off..).get_bits(off, k).to(),
            Q::Rank(w, i, b) => match w {
                0 => self.jac.rank(i, b),
                1 => self.r9.rank(i, b),
                2 => self.sel.rank(i, b),
                _ if b => self.sel9.rank1(i),
                _ => self.sel9.rank0(i),
            },
            Q::Select(w, k, b) => opt(match (w, b) {
                (0, _) => self.sel.select(k, b),
                (1, _) => self.sel9.select(k, b),
                (2, true) => self.sel.select1(k),
                (2, false) => self.sel.select0(k),
                (_, true) => self.sel9.select1(k),
                (_, false) => self.sel9.select0(k),
            }),
            Q::Iter(skip) => {
                let mut it = self.bits.iter();
                let mut x = 0u64;
                if skip > 0 {
                    it.nth(skip - 1);
                }
                for b in it.by_ref().take(200) {
                    x = x.wrapping_mul(3).wrapping_add(b as u64 + 1);
                }
                x.wrapping_add(it.len() as u64)
            }
            Q::IntIter(skip) => {
                let mut it = self.ints.iter();
                let mut x = 0u64;
                if skip > 0 {
                    it.nth(skip - 1);
                }
                for b in it.by_ref().take(200) {
                    x = x.wrapping_mul(0x9E37_79B9).wrapping_add(b.to()).wrapping_add(1);
                }
                x.wrapping_add(it.len() as u64)
            }
            Q::Same => (self.bits == self.same) as u64 + 2 * (self.bits.cmp(&self.same) as i64 as u64),
            Q::Hash => (h(&self.bits) == h(&self.same)) as u64,
            Q::Show => text(&format!("{:?}", self.ints)),
            Q::Copy(i) => {
                let mut c = self.bits.clone();
                let b = c.get_bit(i);
                c.set_bit(i, !b);
                c.push_bit(b);
                (c.get_bit(i) != self.bits.get_bit(i)) as u64
            }
            Q::Space => (self.jac.total_bytes() == std::mem::size_of_val(&self.jac) + self.jac.heap_bytes()) as u64,
            Q::Build(i) => JacobsonRank::new(Lent(&self.bits)).rank1(i),
            Q::Code(k, v) => {
                let mut w: BitBuffer = BitBuffer::new();
                if k.encode(&mut w, v).is_err() {
                    return u64::MAX;
                }
                w.seek(0).unwrap();
                let n = w.bit_len();
                match k.decode(&mut w) {
                    Ok(Some(x)) => h(&(x, n, (0..n).map(|i| w.get_bit(i)).collect::<Vec<bool>>())),
                    Ok(None) => 1,
                    Err(_) => 2,
                }
            }
            Q::Own(ref ops) => {
                let mut v: BitVector<B> = BitVector::new();
                for &(op, x) in ops {
                    match op {
                        0 => v.push_bit(x & 1 == 1),
                        1 => v.resize(x % 300, x & 1 == 1),
                        2 => drop(v.pop_bit()),
                        3 => v.push_block(B::of(x)),
                        4 if v.bit_len() > 0 => {
                            let i = x % v.bit_len();
                            v.set_bit(i, x >> 63 == 1)
                        }
                        _ => v.truncate(x % 300),
                    }
                }
                h(&(0..v.bit_len()).map(|i| v.get_bit(i)).collect::<Vec<bool>>())
            }
            Q::Word(w, k) => opt(Broadword(w).select1(k)) ^ Broadword(w).rank1(k % 64) << 8,
        }
    }
}

/// A bit vector lent to a rank structure.
struct Lent<'a, B: Blk>(&'a BitVector<B>);

impl<'a, B: Blk> BitVec for Lent<'a, B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.0.bit_len()
    }
    fn get_bit(&self, i: u64) -> bool {
        self.0.get_bit(i)
    }
    fn get_block(&self, i: usize) -> B {
        self.0.get_block(i)
    }
}

/// The answer by definition.
fn model<B: Blk>(q: &Q, m: &[bool], k: usize, ints: &[u64], pos: &[Vec<u64>; 2], ones: &[u64]) -> u64 {
    match *q {
        Q::Bit(i) => m[i as usize] as u64,
        Q::Bits(a, k) | Q::SliceBits(a, k, _) => mget(m, a as usize, k),
        Q::Block(i) => mblock::<B>(m, i),
        Q::Get(i) => ints[i as usize],
        Q::Rank(_, i, b) => {
            if b {
                ones[i as usize]
            } else {
                i + 1 - ones[i as usize]
            }
        }
        Q::Select(_, k, b) => opt(pos[b as usize].get(k as usize).copied()),
        Q::Iter(skip) => {
            let mut x = 0u64;
            for &b in m.iter().skip(skip).take(200) {
                x = x.wrapping_mul(3).wrapping_add(b as u64 + 1);
            }
            x.wrapping_add(m.len().saturating_sub(skip + 200) as u64)
        }
        Q::IntIter(skip) => {
            let mut x = 0u64;
            for &b in ints.iter().skip(skip).take(200) {
                x = x.wrapping_mul(0x9E37_79B9).wrapping_add(b).wrapping_add(1);
            }
            x.wrapping_add(ints.len().saturating_sub(skip + 200) as u64)
        }
        Q::Same | Q::Hash | Q::Copy(_) | Q::Space => 1,
        Q::Show => {
            let mut t = format!("IntVector {{ element_bits: {}, elements: {{ ", k);
            for x in ints {
                t += &format!("{}, ", x);
            }
            text(&(t + "} }"))
        }
        Q::Build(i) => ones[i as usize],
        Q::Code(k, v) => match k.reference().encode(v) {
            Enc::Bits(b) => h(&(v, b.len() as u64, b)),
            _ => u64::MAX,
        },
        Q::Own(ref ops) => {
            let mut v: Vec<bool> = Vec::new();
            for &(op, x) in ops {
                match op {
                    0 => v.push(x & 1 == 1),
                    1 => v.resize((x % 300) as usize, x & 1 == 1),
                    2 => drop(v.pop()),
                    3 => {
                        while v.len() % B::BITS != 0 {
                            v.push(false);
                        }
                        mpush(&mut v, B::BITS, x);
                    }
                    4 if !v.is_empty() => {
                        let i = x % v.len() as u64;
                        v[i as usize] = x >> 63 == 1
                    }
                    _ => v.truncate((x % 300) as usize),
                }
            }
            h(&v)
        }
        Q::Word(w, k) => {
            let p: Vec<u64> = (0..64).filter(|i| w >> i & 1 == 1).collect();
            opt(p.get(k as usize).copied()) ^ (p.iter().filter(|&&i| i <= k % 64).count() as u64) << 8
        }
    }
}

pub fn case(s: &mut Src) {
    with_any_block!(s, run(s))
}

fn run<B: Blk>(s: &mut Src) {
    let n = 1 + gen_len_big(s, 3000, 1 << 17, 400);
    let m = gen_bits(s, n);
    let k = gen_width(s, B::BITS);
    let ints: Vec<u64> = (0..s.size(60)).map(|_| gen_val(s, k)).collect();
    let mut bits: BitVector<B> = BitVector::new();
    let mut b64: BitVector<u64> = BitVector::new();
    for &b in &m {
        bits.push_bit(b);
        b64.push_bit(b);
    }
    let mut iv: IntVector<B> = IntVector::new(k);
    for &x in &ints {
        iv.push(B::of(x));
    }
    let mut pos = [Vec::new(), Vec::new()];
    let mut ones = Vec::with_capacity(n);
    for (i, &b) in m.iter().enumerate() {
        pos[b as usize].push(i as u64);
        ones.push(pos[1].len() as u64);
    }
    s.note(|| format!("{} blocks; {} bits {}; {} integers of {} bits {:?}", B::NAME, n, show(&m), ints.len(), k, ints));

    let w = s.swarm(&[3, 3, 2, 3, 2, 8, 8, 1, 1, 1, 1, 1, 1, 1, 1, 3, 1, 2]);
    let mut qs: Vec<Q> = Vec::new();
    while qs.is_empty() || qs.len() < 60 && s.more(19, 20) {
        let i = gen_pos(s, n) as u64;
        let q = match s.weighted(&w) {
            0 => Q::Bit(i),
            1 => {
                let (a, c) = gen_span(s, n, B::BITS);
                Q::Bits(a as u64, c)
            }
            2 => Q::Block(gen_pos(s, nblocks::<B>(n))),
            3 if !ints.is_empty() => Q::Get(gen_pos(s, ints.len()) as u64),
            4 => {
                let (a, c) = gen_span(s, n, B::BITS);
                Q::SliceBits(a as u64, c, s.size(a) as u64)
            }
            6 => {
                let b = s.bool();
                Q::Select(s.idx(4), s.size(pos[b as usize].len()) as u64, b)
            }
            7 => Q::Iter(i as usize),
            8 => Q::IntIter(s.size(ints.len())),
            9 => Q::Same,
            10 => Q::Hash,
            11 => Q::Show,
            12 => Q::Copy(i),
            13 => Q::Space,
            14 if n <= 5000 => Q::Build(i),
            15 => {
                let k = gen_kind(s);
                let v = gen_value(s, &k.reference());
                if v > 5000 && matches!(k.0, 0 | 6) {
                    Q::Bit(i)
                } else {
                    Q::Code(k, v)
                }
            }
            16 => {
                let mut o = Vec::new();
                while o.len() < 12 && s.more(5, 6) {
                    o.push((s.below(6) as u8, s.word()));
                }
                Q::Own(o)
            }
            17 => Q::Word(s.word(), s.below(65)),
            _ => Q::Rank(s.idx(4), i, s.bool()),
        };
        qs.push(q);
    }
    let mut kinds = [false; KINDS];
    for q in &qs {
        let d = match q {
            Q::Bit(..) => 0,
            Q::Bits(..) => 1,
            Q::Block(..) => 2,
            Q::Get(..) => 3,
            Q::SliceBits(..) => 4,
            Q::Rank(..) => 5,
            Q::Select(..) => 6,
            Q::Iter(..) => 7,
            Q::IntIter(..) => 8,
            Q::Same => 9,
            Q::Hash => 10,
            Q::Show => 11,
            Q::Copy(..) => 12,
            Q::Space => 13,
            Q::Build(..) => 14,
            Q::Code(..) => 15,
            Q::Own(..) => 16,
            Q::Word(..) => 17,
        };
        kinds[d] = true;
    }
    s.nontrivial_if(n >= 100 && kinds.iter().filter(|&&x| x).count() >= 3);
    let threads = 2 + s.idx(3);
    let orders: Vec<(usize, usize)> = (0..threads).map(|_| (s.idx(qs.len()), s.idx(qs.len()))).collect();
    s.note(|| format!("{} threads, orders {:?}, queries {:?}", threads, orders, qs));

    let set = Set {
        same: bits.clone(),
        jac: JacobsonRank::new(bits.clone()),
        r9: Rank9::new(b64.clone()),
        sel: BinSearchSelect::new(JacobsonRank::new(bits.clone())),
        sel9: BinSearchSelect::new(Rank9::new(b64)),
        bits,
        ints: iv,
    };
    let want: Vec<u64> = qs.iter().map(|q| model::<B>(q, &m, k, &ints, &pos, &ones)).collect();
    // In this thread first: such failures need no threads.
    for (q, &x) in qs.iter().zip(&want) {
        let g = set.ask(q);
        assert!(g == x, "{:?} is {:#x}, expected {:#x}", q, g, x);
    }
    let rounds = (600 / qs.len() + 1) * if s.strict { 30 } else { 1 };
    let set = Shared(set);
    let work = Shared((&qs, &want, Barrier::new(threads)));
    let (set, work) = (&set, &work);
    let results: Vec<Result<Result<(), String>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = orders
            .iter()
            .map(|&(from, stride)| {
                sc.spawn(move || {
                    let (set, work) = (set, work);
                    let (qs, want, barrier) = (work.0 .0, work.0 .1, &work.0 .2);
                    barrier.wait();
                    catch(|| {
                        let n = qs.len();
                        for r in 0..rounds {
                            for j in 0..n {
                                // All of them in some order, or with repetitions.
                                let i = (from + j * (stride + 1) + r) % n;
                                let g = set.0.ask(&qs[i]);
                                if g != want[i] {
                                    return Err(format!("{:?} is {:#x}, expected {:#x}", qs[i], g, want[i]));
                                }
                            }
                        }
                        Ok(())
                    })
                })
            })
            .collect();
        hs.into_iter().map(|t| t.join().unwrap()).collect()
    });
    for r in results {
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => panic!("while {} threads ask the same structures: {}", threads, e),
        }
    }
    let _ = set;
}

struct Tells<T: ?Sized>(std::marker::PhantomData<T>);
struct TellsSend<T: ?Sized>(std::marker::PhantomData<T>);

trait Not {
    const SHARED: bool = false;
    const SENT: bool = false;
}
impl<T: ?Sized> Not for Tells<T> {}
impl<T: ?Sized> Not for TellsSend<T> {}
impl<T: ?Sized + Sync> Tells<T> {
    const SHARED: bool = true;
}
impl<T: ?Sized + Send> TellsSend<T> {
    const SENT: bool = true;
}

macro_rules! free {
    ($($t:ty),+ $(,)?) => { $(
        assert!(Tells::<$t>::SHARED, "{} cannot be shared between threads", stringify!($t));
        assert!(TellsSend::<$t>::SENT, "{} cannot be sent to another thread", stringify!($t));
    )+ }
}

macro_rules! per_block {
    ($($b:ty),+) => { $(
        free!(
            BitVector<$b>,
            IntVector<$b>,
            BitBuffer<BitVector<$b>>,
            BitBuffer<Vec<$b>>,
            JacobsonRank<BitVector<$b>>,
            JacobsonRank<Vec<$b>>,
            JacobsonRank<IntVector<$b>>,
            BinSearchSelect<JacobsonRank<BitVector<$b>>>,
            BinSearchSelect<$b>,
            BitSlice<'static, BitVector<$b>>,
            BitSlice<'static, [$b]>,
            succinct::bit_vec::BitSliceMut<'static, BitVector<$b>>,
            succinct::bit_vec::Iter<'static, $b>,
            succinct::int_vec::Iter<'static, $b>,
        );
    )+ }
}

fn send_and_sync() {
    per_block!(u8, u16, u32, u64, usize, Own);
    free!(
        Rank9<BitVector<u64>>,
        Rank9<Vec<u64>>,
        Rank9<BitSlice<'static, BitVector<u64>>>,
        BinSearchSelect<Rank9<BitVector<u64>>>,
        BinSearchSelect<Broadword>,
        JacobsonRank<Vec<bool>>,
        JacobsonRank<OnlyBits<u32>>,
        JacobsonRank<OnlyBlocks<u32>>,
        BitSlice<'static, Vec<bool>>,
        Box<Rank9<BitVector<u64>>>,
        Broadword,
        Address,
        Unary,
        Omega,
        Fibonacci,
        Comma,
        Elias<Unary>,
        Elias<Omega>,
        Lift0<Elias<Lift0<Omega>>>,
    );
    // Trait objects that promise it.
    free!(Box<dyn BitRankSupport<Over = bool> + Send + Sync>);
}
