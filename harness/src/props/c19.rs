//! C19: iterators yield each element once, from both ends, with exact sizes.

use common::*;
use engine::{Prop, Src};
use std::fmt::Debug;
use succinct::bit_vec::{BitVecPush, BitVector};
use succinct::int_vec::IntVector;

pub const PROP: Prop = Prop {
    id: "C19",
    rule: "an iterator over a bit or integer vector (any block type and width, 0 to 400 elements, rarely 2^18, obtained \
           from iter or by borrowing) and up to 40 calls (next, next_back, nth and nth_back inside, at and \
           beyond what remains and up to the maximum, by_ref adapters, continuing with a clone) next to the \
           same calls on an array's iterator; results, length and size hint are compared after every call, \
           at the end one consuming call (count, last, rev, collect, fold, rfold, step_by, skip, chunks). \
           Non-trivial: at least 3 elements taken, from both ends, and a skip",
    case,
    directed: &[("every skip of short vectors", every_skip)],
};

/// The exact length (the iterators of the library have none on 32-bit targets).
trait Exact {
    fn exact_len(&self) -> Option<usize>;
}

#[cfg(target_pointer_width = "64")]
impl<I: ExactSizeIterator> Exact for I {
    fn exact_len(&self) -> Option<usize> {
        Some(self.len())
    }
}

#[cfg(not(target_pointer_width = "64"))]
impl<I: Iterator> Exact for I {
    fn exact_len(&self) -> Option<usize> {
        None
    }
}

pub fn case(s: &mut Src) {
    with_any_block!(s, block(s))
}

fn block<B: Blk>(s: &mut Src) {
    let n = match s.weighted(&[1, 4, 2]) {
        0 => s.size(6),
        1 => s.size(40),
        _ => gen_len_big(s, 400, 1 << 18, 2000),
    };
    if s.bool() {
        let m = gen_bits(s, n);
        s.note(|| format!("BitVector<{}> {}", B::NAME, show(&m)));
        let mut v: BitVector<B> = BitVector::new();
        m.iter().for_each(|&b| v.push_bit(b));
        s.label("BitVector");
        if s.bool() {
            calls(s, v.iter(), m.iter().copied(), |x| x as u64)
        } else {
            calls(s, (&v).into_iter(), m.iter().copied(), |x| x as u64)
        }
    } else {
        let k = gen_width(s, B::BITS);
        let m: Vec<B> = if n > 500 {
            let bits = gen_bits(s, n * k);
            (0..n).map(|i| B::of(mget(&bits, i * k, k))).collect()
        } else {
            (0..n).map(|_| B::of(gen_val(s, k))).collect()
        };
        s.note(|| format!("IntVector<{}> of width {}: {} elements, {:?}", B::NAME, k, n, &m[..n.min(500)]));
        let mut v: IntVector<B> = IntVector::new(k);
        m.iter().for_each(|&x| v.push(x));
        s.label("IntVector");
        if s.bool() {
            calls(s, v.iter(), m.iter().copied(), |x| x.to())
        } else {
            calls(s, (&v).into_iter(), m.iter().copied(), |x| x.to())
        }
    }
}

fn amount(s: &mut Src, left: usize) -> usize {
    match s.weighted(&[24, 4, 2, 1, 1]) {
        0 => s.size(left.min(4)),
        1 => s.size(left),
        2 => left.saturating_sub(s.size(2)),
        3 => left + s.size(3),
        _ => usize::MAX - s.size(left + 5),
    }
}

fn calls<T, I, M>(s: &mut Src, mut a: I, mut m: M, f: impl Fn(T) -> u64 + Copy)
where
    T: Copy + PartialEq + Debug,
    I: Iterator<Item = T> + DoubleEndedIterator + Exact + Clone + PartialEq + Debug,
    M: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone + Debug,
{
    let mut taken = [0usize; 2];
    let mut skipped = false;
    sizes("at first", &a, m.len());
    let w = s.swarm(&[5, 5, 5, 2, 1, 1, 1, 1]);
    for _ in 0..40 {
        if !s.more(15, 16) {
            break;
        }
        let left = m.len();
        match s.weighted(&w) {
            0 => {
                s.note(|| "next()".into());
                let (x, y) = (a.next(), m.next());
                assert!(x == y, "next with {} left gives {:?}, expected {:?}", left, x, y);
                taken[0] += y.is_some() as usize;
            }
            1 => {
                s.note(|| "next_back()".into());
                let (x, y) = (a.next_back(), m.next_back());
                assert!(x == y, "next_back with {} left gives {:?}, expected {:?}", left, x, y);
                taken[1] += y.is_some() as usize;
            }
            2 => {
                let k = amount(s, left);
                s.note(|| format!("nth({})", k));
                let (x, y) = (a.nth(k), m.nth(k));
                assert!(x == y, "nth({}) with {} left gives {:?}, expected {:?}", k, left, x, y);
                taken[0] += y.is_some() as usize;
                skipped |= k > 0;
                s.label_if(k >= left, "nth beyond the end");
            }
            3 => {
                let k = amount(s, left);
                s.note(|| format!("nth_back({})", k));
                let (x, y) = (a.nth_back(k), m.nth_back(k));
                assert!(x == y, "nth_back({}) with {} left gives {:?}, expected {:?}", k, left, x, y);
                taken[1] += y.is_some() as usize;
                skipped |= k > 0;
            }
            4 => {
                let k = s.size(left + 2);
                s.note(|| format!("by_ref().take({}).collect()", k));
                let x: Vec<T> = a.by_ref().take(k).collect();
                let y: Vec<T> = m.by_ref().take(k).collect();
                assert!(x == y, "taking {} with {} left gives {:?}, expected {:?}", k, left, x, y);
                taken[0] += y.len();
            }
            5 => {
                let k = s.size(left + 2);
                s.note(|| format!("by_ref().rev().skip({}).next()", k));
                let (x, y) = (a.by_ref().rev().skip(k).next(), m.by_ref().rev().skip(k).next());
                assert!(x == y, "skipping {} from the back with {} left gives {:?}, expected {:?}", k, left, x, y);
                taken[1] += y.is_some() as usize;
                skipped = true;
            }
            6 => {
                let k = s.size(left + 2);
                s.note(|| format!("by_ref().skip({}).next()", k));
                let (x, y) = (a.by_ref().skip(k).next(), m.by_ref().skip(k).next());
                assert!(x == y, "skipping {} with {} left gives {:?}, expected {:?}", k, left, x, y);
                taken[0] += y.is_some() as usize;
                skipped = true;
            }
            _ => {
                s.note(|| "go on with a clone".into());
                let b = a.clone();
                assert!(a == b, "a clone differs");
                a = b;
            }
        }
        sizes("after a call", &a, m.len());
    }
    s.label_if(taken[0] > 0 && taken[1] > 0, "both ends");
    s.label_if(m.len() == 0, "exhausted");
    s.nontrivial_if(taken[0] + taken[1] >= 3 && taken[0] > 0 && taken[1] > 0 && skipped);
    let left = m.len();
    let want: Vec<T> = m.clone().collect();
    let same = |what: &str, got: Vec<T>| {
        assert!(got == want, "{} with {} left gives {:?}, expected {:?}", what, left, got, want);
    };
    s.note(|| format!("all consuming calls, {} left", left));
    same("collect", a.clone().collect());
    assert!(a.clone().count() == left, "count is {}, expected {}", a.clone().count(), left);
    assert!(a.clone().last() == m.clone().last(), "last is {:?}, expected {:?}", a.clone().last(), m.clone().last());
    let mut back: Vec<T> = a.clone().rev().collect();
    back.reverse();
    same("rev", back);
    same("fold", a.clone().fold(vec![], |mut v, x| { v.push(x); v }));
    let mut back = a.clone().rfold(vec![], |mut v, x| { v.push(x); v });
    back.reverse();
    same("rfold", back);
    let x: u64 = a.clone().map(f).fold(0, |h, x| h.wrapping_mul(31).wrapping_add(x));
    let y: u64 = m.clone().map(f).fold(0, |h, x| h.wrapping_mul(31).wrapping_add(x));
    assert!(x == y, "map and fold differ");
    let k = 1 + s.size(left + 1);
    let (x, y): (Vec<T>, Vec<T>) = (a.clone().step_by(k).collect(), m.clone().step_by(k).collect());
    assert!(x == y, "step_by({}) with {} left gives {:?}, expected {:?}", k, left, x, y);
    let k = s.size(left + 2);
    let (x, y) = (a.clone().skip(k), m.clone().skip(k));
    assert!(x.size_hint() == y.size_hint(), "skip({}) leaves {:?} of {}", k, x.size_hint(), left);
    let (x, y): (Vec<T>, Vec<T>) = (x.collect(), y.collect());
    assert!(x == y, "skip({}) with {} left gives {:?}, expected {:?}", k, left, x, y);
    let (x, y): (Vec<(T, T)>, Vec<(T, T)>) = (a.clone().zip(a.clone().rev()).collect(), m.clone().zip(m.clone().rev()).collect());
    assert!(x == y, "zip with the reverse differs");
    assert!(a.clone().eq(m.clone()), "eq");
    // Meeting in the middle, then staying exhausted.
    let mut n = 0;
    loop {
        let (x, y) = if n % 2 == 0 { (a.next(), m.next()) } else { (a.next_back(), m.next_back()) };
        assert!(x == y, "alternating, step {} of {}: {:?}, expected {:?}", n, left, x, y);
        sizes("alternating", &a, m.len());
        if y.is_none() {
            break;
        }
        n += 1;
    }
    for k in [0, 1, usize::MAX] {
        assert!(a.nth(k).is_none(), "nth({}) on an exhausted iterator gives an element", k);
        sizes("exhausted", &a, 0);
    }
    assert!(a.next().is_none() && a.next_back().is_none() && a.clone().last().is_none() && a.clone().count() == 0);
    sizes("exhausted", &a, 0);
}

fn sizes<I: Iterator + Exact + Clone>(what: &str, a: &I, left: usize) {
    let h = a.size_hint();
    assert!(h == (left, Some(left)), "{}: size_hint is {:?}, expected {}", what, h, left);
    let l = a.exact_len();
    assert!(l.map_or(true, |l| l == left), "{}: len is {:?}, expected {}", what, l, left);
    if left > 1000 && left % 997 != 0 {
        return;
    }
    let c = a.clone().count();
    assert!(c == left, "{}: count is {}, expected {}", what, c, left);
}

/// Every skip from either end after every number of elements taken from both
/// ends, on vectors of every length up to a dozen and around a block or two.
fn every_skip() {
    fn all<T, I, M>(a: I, m: M, n: usize, few: bool)
    where
        T: Copy + PartialEq + Debug,
        I: Iterator<Item = T> + DoubleEndedIterator + Exact + Clone,
        M: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone,
    {
        let steps = |top: usize| -> Vec<usize> {
            (0..=top).filter(|&i| !few || i < 3 || top - i < 3 || (i + 1) % 64 < 3 || (i + 1) % 8 < 2).collect()
        };
        for x in steps(n) {
            for y in steps(n - x) {
                let (mut a, mut m) = (a.clone(), m.clone());
                for _ in 0..x {
                    assert!(a.next() == m.next(), "next of {}", n);
                }
                for _ in 0..y {
                    assert!(a.next_back() == m.next_back(), "next_back of {}", n);
                }
                let left = n - x - y;
                sizes("taken from both ends", &a, left);
                assert!(a.clone().last() == m.clone().last(), "last of {} without {} and {}", n, x, y);
                for k in steps(left + 2).into_iter().chain([usize::MAX, usize::MAX - 1, usize::MAX / 2, (usize::MAX - x).wrapping_add(1), (usize::MAX - x).wrapping_add(2)]) {
                    let (mut b, mut c) = (a.clone(), m.clone());
                    let (got, want) = (b.nth(k), c.nth(k));
                    assert!(got == want, "nth({}) of {} without {} and {} gives {:?}, expected {:?}", k, n, x, y, got, want);
                    sizes("nth", &b, c.len());
                    assert!(b.next() == c.next() && b.next_back() == c.next_back(), "after nth({}) of {} without {} and {}", k, n, x, y);
                    if k <= left + 2 {
                        let (mut b, mut c) = (a.clone(), m.clone());
                        let (got, want) = (b.nth_back(k), c.nth_back(k));
                        assert!(got == want, "nth_back({}) of {} without {} and {} gives {:?}, expected {:?}", k, n, x, y, got, want);
                        sizes("nth_back", &b, c.len());
                        assert!(b.next() == c.next() && b.next_back() == c.next_back(), "after nth_back({}) of {} without {} and {}", k, n, x, y);
                    }
                }
            }
        }
    }
    fn go<B: Blk>(lens: &[usize], few: bool) {
        for &n in lens {
            let m: Vec<bool> = (0..n).map(|i| (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 63 == 1).collect();
            let mut v: BitVector<B> = BitVector::new();
            m.iter().for_each(|&b| v.push_bit(b));
            all(v.iter(), m.iter().copied(), n, few);
            for k in [1, 3, B::BITS / 2 + 1, B::BITS] {
                let m: Vec<B> = (0..n).map(|i| B::of((i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 7 & low(k))).collect();
                let mut v: IntVector<B> = IntVector::new(k);
                m.iter().for_each(|&x| v.push(x));
                all(v.iter(), m.iter().copied(), n, few);
            }
        }
    }
    let short: Vec<usize> = (0..36).collect();
    go::<u8>(&short, false);
    go::<u8>(&[63, 64, 65, 130, 257], true);
    go::<u16>(&[16, 17, 33], false);
    go::<u32>(&[31, 32, 33], false);
    go::<u64>(&short[..13], false);
    go::<u64>(&[63, 64, 65, 130], false);
    go::<u64>(&[255, 256, 513], true);
    go::<usize>(&[5, 64], true);
    go::<Own>(&[5, 33], true);
}
