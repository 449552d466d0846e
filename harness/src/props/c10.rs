//! C10: codes round-trip any sequence of values in any mix.

use common::codes::{gen_kind, gen_value, Enc, Kind, Ref, FIB_MAX};
use common::io::{Sink, Source};
use common::*;
use engine::{Prop, Src};
use std::collections::VecDeque;
use succinct::bit_vec::{BitVec, BitVector};
use succinct::int_vec::IntVector;
use succinct::stream::{BitBuffer, BitRead, BitWrite};

pub const PROP: Prop = Prop {
    id: "C10",
    rule: "up to 60 items (a value in one of 25 codes and their stacks, or a plain integer of any type, \
           width and order) written one after the other to a recording sink, a queue or a bit buffer \
           over any growable vector, then read back; each value and the number of bits consumed are \
           compared, then a clean end. Values include those with no codeword at the top of the range. \
           Non-trivial: at least 2 items of different codes and 20 bits",
    case,
    directed: &[
        ("every small value in every code", small),
        ("powers of two, Fibonacci numbers, maxima", boundaries),
        ("long unary codewords", long_unary),
    ],
};

#[derive(Clone, Debug)]
enum Item {
    Code(Kind, u64),
    Int(usize, bool, usize, u128),
}

fn items(s: &mut Src) -> Vec<Item> {
    let fixed = if s.prob(1, 3) { Some(gen_kind(s)) } else { None };
    let mut v = vec![];
    if s.rare(2000) {
        s.label("large");
        v.push(Item::Code(Kind(0, 2), s.brange(5000, 1 << 18)));
    }
    let max = if s.thorough { 200 } else { 60 };
    while v.len() < max && s.more(14, 15) {
        if fixed.is_none() && s.prob(1, 5) {
            let t = s.idx(ints::TYPES.len());
            let k = s.size(ints::TYPES[t].1);
            let x = (s.word() as u128) << 64 | s.word() as u128;
            v.push(Item::Int(t, s.bool(), k, x));
        } else {
            let k = match fixed {
                Some(k) => k,
                None => gen_kind(s),
            };
            let r = k.reference();
            let x = if s.prob(1, 40) && r.max() == u64::MAX {
                u64::MAX - s.below(3)
            } else {
                gen_value(s, &r)
            };
            v.push(Item::Code(k, x));
        }
    }
    v
}

/// Whether encoding may fail, per the property.
fn may_fail(r: &Ref, v: u64) -> bool {
    match r {
        Ref::Fib => v >= FIB_MAX,
        Ref::Lift(c) => v == u64::MAX || may_fail(c, v + 1),
        Ref::Elias(h) => v != 0 && may_fail(h, 63 - v.leading_zeros() as u64),
        Ref::Fixed(k) => v > low(*k as usize),
        _ => false,
    }
}

/// Writes the items; gives back those accepted, with the bit length after each.
fn write_all<W: BitWrite>(w: &mut W, items: &[Item], len: impl Fn(&W) -> u64) -> Vec<(Item, u64)> {
    let mut done = vec![];
    for it in items {
        let before = len(w);
        let r = match *it {
            Item::Code(k, v) => k.encode(w, v),
            Item::Int(t, be, k, v) => ints::write_int(w, t, be, k, v),
        };
        match r {
            Ok(()) => done.push((it.clone(), len(w))),
            Err(e) => {
                let ok = match *it {
                    Item::Code(k, v) => may_fail(&k.reference(), v),
                    _ => false,
                };
                assert!(ok, "{:?} cannot be written: {}", it, e);
                assert!(len(w) == before, "{:?}: {} bits written before the error", it, len(w) - before);
            }
        }
    }
    done
}

fn read_all<R: BitRead>(r: &mut R, done: &[(Item, u64)], pos: impl Fn(&R) -> u64) {
    for (i, (it, end)) in done.iter().enumerate() {
        match *it {
            Item::Code(k, v) => match k.decode(r) {
                Ok(Some(g)) => assert!(g == v, "item {}: {:?} reads back as {}", i, it, g),
                e => panic!("item {}: {:?} reads back as {:?}", i, it, e),
            },
            Item::Int(t, be, k, v) => {
                let want = ints::bits_int(t, false, &ints::int_bits(false, k, v));
                match ints::read_int(r, t, be, k) {
                    Ok(Some(g)) => assert!(g == want, "item {}: {:?} reads back as {}, expected {}", i, it, g, want),
                    e => panic!("item {}: {:?} reads back as {:?}", i, it, e),
                }
            }
        }
        let p = pos(r);
        assert!(p == *end, "item {}: reading {:?} ends at bit {}, but it was written up to {}", i, it, p, end);
    }
}

fn clean_end<R: BitRead>(r: &mut R, k: Kind) {
    for _ in 0..2 {
        match k.decode(r) {
            Ok(None) => {}
            e => panic!("{:?} at the end of the input gives {:?}", k.reference(), e),
        }
        match r.read_int::<u32>(5) {
            Ok(None) => {}
            e => panic!("read_int at the end of the input gives {:?}", e),
        }
    }
}

pub fn case(s: &mut Src) {
    let its = items(s);
    s.note(|| format!("items {:?}", its));
    let last = gen_kind(s);
    let total = run(s, &its, last);
    let differ = its.iter().any(|a| match (a, &its[0]) {
        (Item::Code(a, _), Item::Code(b, _)) => a.0 != b.0,
        _ => true,
    });
    s.nontrivial_if(its.len() >= 2 && differ && total >= 20);
}

fn run(s: &mut Src, its: &[Item], last: Kind) -> u64 {
    match s.idx(5) {
        0 | 1 => {
            s.label("recording sink");
            let mut w = Sink::new(10_000_000);
            let done = write_all(&mut w, its, |w| w.bits.len() as u64);
            let mut r = Source::new(&w.bits);
            read_all(&mut r, &done, |r| r.pos as u64);
            clean_end(&mut r, last);
            assert!(r.pos == w.bits.len());
            w.bits.len() as u64
        }
        2 => {
            s.label("queue");
            let mut q: VecDeque<bool> = VecDeque::new();
            let done = write_all(&mut q, its, |w| w.len() as u64);
            let n = q.len() as u64;
            read_all(&mut q, &done, |r| n - r.len() as u64);
            clean_end(&mut q, last);
            assert!(q.is_empty());
            n
        }
        3 => {
            s.label("bit buffer");
            with_block!(s, buffer(its, last))
        }
        _ => {
            s.label("bit buffer");
            let mut b: BitBuffer<OnlyBlocks<u16>> = BitBuffer::append(OnlyBlocks::new(&[], 0xFFFF));
            let done = write_all(&mut b, its, |w| w.position());
            b.seek(0).unwrap();
            read_all(&mut b, &done, |r| r.position());
            clean_end(&mut b, last);
            b.bit_len()
        }
    }
}

fn buffer<B: Blk>(its: &[Item], last: Kind) -> u64 {
    let mut b: BitBuffer<BitVector<B>> = BitBuffer::new();
    let done = write_all(&mut b, its, |w| w.position());
    let v = b.into_inner();
    let n = v.bit_len();
    assert!(n == done.last().map_or(0, |d| d.1), "the vector has {} bits", n);
    let mut b = BitBuffer::from(v);
    read_all(&mut b, &done, |r| r.position());
    clean_end(&mut b, last);
    n
}

fn one(k: Kind, v: u64) {
    let r = k.reference();
    if v < r.min() || v > r.max() {
        return;
    }
    if let Enc::Zero = r.encode(v) {
        return;
    }
    let it = [Item::Code(k, v)];
    let mut w = Sink::new(1_000_000);
    let done = write_all(&mut w, &it, |w| w.bits.len() as u64);
    let mut s = Source::new(&w.bits);
    read_all(&mut s, &done, |r| r.pos as u64);
    clean_end(&mut s, k);
}

fn kinds() -> Vec<Kind> {
    let mut v = vec![];
    for k in 0..codes::KINDS {
        for w in match k {
            5 => 2..64,
            11 | 12 | 17 | 24 => 2..8,
            19 | 20 | 21 => 6..7,
            _ => 2..3,
        } {
            v.push(Kind(k, w));
        }
    }
    v
}

fn small() {
    for k in kinds() {
        for v in 0..300 {
            one(k, v);
        }
    }
}

fn boundaries() {
    let mut vs = vec![];
    for i in 0..64 {
        vs.extend([(1u64 << i) - 1, 1 << i, (1 << i) + 1, u64::MAX - (1 << i)]);
    }
    let (mut a, mut b) = (1u64, 2u64);
    while let Some(c) = a.checked_add(b) {
        a = b;
        b = c;
        vs.extend([c - 1, c, c.saturating_add(1)]);
    }
    vs.push(u64::MAX);
    for k in kinds() {
        for &v in &vs {
            one(k, v);
        }
    }
}

fn long_unary() {
    for n in [(1u64 << 16) - 1, 1 << 16, (1 << 20) + 1] {
        let mut q: VecDeque<bool> = VecDeque::new();
        let k = Kind(0, 2);
        k.encode(&mut q, n).unwrap();
        assert!(q.len() as u64 == n + 1);
        assert!(k.decode(&mut q).unwrap() == Some(n), "unary {}", n);
        assert!(q.is_empty());
    }
    // An integer vector as the growable store: elements of one bit.
    let mut v: IntVector<u32> = IntVector::new(1);
    use succinct::int_vec::IntVecMut;
    v.resize(70_000, 0);
    v.set(69_999, 1);
    let mut b = BitBuffer::from(v);
    assert!(Kind(0, 2).decode(&mut b).unwrap() == Some(69_999));
}
