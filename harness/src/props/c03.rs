//! C03: equality, order and hash depend only on contents; spare bits are zero.

use common::*;
use engine::{Prop, Src};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use succinct::bit_vec::{BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::int_vec::{IntVec, IntVecMut, IntVector};
use succinct::stream::{BitBuffer, BitWrite};

pub const PROP: Prop = Prop {
    id: "C03",
    rule: "three vectors (bit or integer, any block type and width) with the same, nearly the same or \
           different contents, each produced by its own detour (garbage beyond the end then cut off by \
           pop, truncate, resize, block operations; other capacities; clones); every pair is compared \
           for equality, order and hash, and the bits of the last block beyond the length are read. \
           Non-trivial: the contents are not empty, two of the detours differ, and the length is not a \
           multiple of the block size",
    case,
    directed: &[("every length by every detour", every_detour)],
};

pub fn case(s: &mut Src) {
    if s.bool() {
        with_any_block!(s, bits(s))
    } else {
        with_any_block!(s, ints(s))
    }
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Relations among three values with known equality.
fn relations<T: Eq + Ord + Hash + Clone>(v: &[T; 3], same: impl Fn(usize, usize) -> bool) {
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = (&v[i], &v[j]);
            let eq = same(i, j);
            assert!((a == b) == eq, "vectors {} and {}: == is {}, contents equal: {}", i, j, a == b, eq);
            assert!((a != b) == !eq, "vectors {} and {}: != is wrong", i, j);
            let c = a.cmp(b);
            assert!((c == Ordering::Equal) == eq, "vectors {} and {}: cmp is {:?}, contents equal: {}", i, j, c, eq);
            assert!(c == b.cmp(a).reverse(), "cmp of {} and {} is not antisymmetric", i, j);
            assert!(a.partial_cmp(b) == Some(c), "partial_cmp and cmp differ");
            assert!((a < b) == (c == Ordering::Less) && (a >= b) == (c != Ordering::Less), "< and cmp differ");
            assert!((a > b) == (c == Ordering::Greater) && (a <= b) == (c != Ordering::Greater), "> and cmp differ");
            if eq {
                assert!(hash(a) == hash(b), "equal vectors {} and {} hash differently", i, j);
                assert!(hash(&[a, b]) == hash(&[b, a]), "arrays of equal vectors {} and {} hash differently", i, j);
                assert!(hash(&v[i..i + 1]) == hash(&v[j..j + 1]), "slices of equal vectors hash differently");
            }
            for k in 0..3 {
                if c != Ordering::Greater && b.cmp(&v[k]) != Ordering::Greater {
                    assert!(a.cmp(&v[k]) != Ordering::Greater, "cmp of {}, {}, {} is not transitive", i, j, k);
                }
            }
        }
    }
}

/// The contents, or a near miss of them.
fn vary(s: &mut Src, m: &[bool], unit: usize) -> Vec<bool> {
    let mut r = m.to_vec();
    match s.weighted(&[4, 2, 1, 1]) {
        0 => {}
        1 if !r.is_empty() => {
            let i = gen_pos(s, r.len());
            r[i] = !r[i];
        }
        2 => mpush(&mut r, unit, 0),
        _ => {
            let n = r.len().saturating_sub(unit);
            r.truncate(n)
        }
    }
    r
}

fn spare_zero<B: Blk, V: BitVec<Block = B>>(what: &str, v: &V, len: usize) {
    let nb = nblocks::<B>(len);
    assert!(v.block_len() == nb, "{}: block_len is {}, expected {}", what, v.block_len(), nb);
    if nb > 0 {
        let inside = len - (nb - 1) * B::BITS;
        let b = v.get_block(nb - 1).to();
        assert!(b & !low(inside) == 0, "{}: bits beyond the length are not zero: {:#x} with {} used", what, b, inside);
    }
}

fn bits<B: Blk>(s: &mut Src) {
    let (mut h, m) = if s.bool() {
        let v = history::<B>(s);
        let m = (0..v.bit_len()).map(|i| v.get_bit(i)).collect();
        (Some(v), m)
    } else {
        let n = gen_len_big(s, 3000, 1 << 20, 30_000);
        (None, gen_bits(s, n))
    };
    let n = m.len();
    let ms = [m.clone(), vary(s, &m, 1), vary(s, &m, 1)];
    s.note(|| format!("BitVector<{}> contents {}", B::NAME, show(&m)));
    let mut ways = [0; 3];
    let v = [0, 1, 2].map(|i| {
        let w = if i == 0 && h.is_some() { 13 } else { s.idx(13) };
        ways[i] = w;
        let v = match (i, h.take()) {
            (0, Some(v)) => v,
            (_, o) => {
                h = o;
                make::<B>(s, &ms[i], w)
            }
        };
        s.note(|| format!("vector {}: {} by way {}", i, show(&ms[i]), w));
        check_quick("made", &v, &ms[i], s);
        spare_zero("BitVector", &v, ms[i].len());
        v
    });
    relations(&v, |i, j| ms[i] == ms[j]);
    s.label_if(ms[0] == ms[1], "equal contents");
    s.label_if(ms[0] != ms[1], "different contents");
    s.nontrivial_if(n > 0 && n % B::BITS != 0 && ways[0] != ways[1] && ms[0] == ms[1]);
}

/// A vector left by a random history.
fn history<B: Blk>(s: &mut Src) -> BitVector<B> {
    let mut v = BitVector::new();
    for _ in 0..1 + s.size(11) {
        let len = v.bit_len();
        let x = B::of(s.word());
        let b = s.bool();
        match s.idx(15) {
            0 => (0..s.size(2 * B::BITS)).for_each(|_| v.push_bit(b)),
            1 => (0..s.size(2 * B::BITS)).for_each(|_| {
                v.pop_bit();
            }),
            2 => v.push_block(x),
            3 => v.truncate(s.idx(len as usize + 2) as u64),
            4 => v.resize(s.idx(len as usize + 2 * B::BITS) as u64, b),
            5 => v.block_truncate(s.idx(v.block_len() + 1)),
            6 => {
                let n = s.idx(v.block_len() + 3);
                v.block_resize(n, x)
            }
            7 => v.align_block(b),
            8 if v.block_len() > 0 => {
                let i = s.idx(v.block_len());
                v.set_block(i, x)
            }
            9 | 10 if len > 0 => {
                let i = s.idx(len as usize);
                let c = s.idx(B::BITS.min(len as usize - i) + 1);
                v.set_bits(i as u64, c, x)
            }
            11 if len > 0 => v.set_bit(s.idx(len as usize) as u64, b),
            12 => v.shrink_to_fit(),
            13 => v = v.clone(),
            14 if s.prob(1, 4) => v.clear(),
            _ => v.push_bit(b),
        }
        spare_zero("BitVector", &v, v.bit_len() as usize);
    }
    v
}

/// The same of an integer vector.
fn int_history<B: Blk>(s: &mut Src, k: usize) -> IntVector<B> {
    let mut v = IntVector::new(k);
    for _ in 0..1 + s.size(11) {
        let len = v.len();
        let bits = len as usize * k;
        let y = s.word();
        let (x, e) = (B::of(y), B::of(y & low(k)));
        match s.idx(15) {
            0 => (0..s.size(2 * B::BITS / k)).for_each(|_| v.push(e)),
            1 => (0..s.size(2 * B::BITS / k)).for_each(|_| {
                v.pop();
            }),
            2 => v.truncate(s.idx(len as usize + 2) as u64),
            3 => v.resize(s.idx(len as usize + 2 * B::BITS / k + 1) as u64, e),
            4 | 5 => v.block_truncate(s.idx(v.block_len() + 1)),
            6 => {
                let n = s.idx(v.block_len() + 3);
                v.block_resize(n, x)
            }
            7 | 8 if v.block_len() > 0 => {
                let i = s.idx(v.block_len());
                v.set_block(i, x)
            }
            9 if bits > 0 => {
                let i = s.idx(bits);
                let c = s.idx(B::BITS.min(bits - i) + 1);
                v.set_bits(i as u64, c, x)
            }
            10 if bits > 0 => v.set_bit(s.idx(bits) as u64, y % 2 == 1),
            11 if len > 0 => v.set(s.idx(len as usize) as u64, e),
            12 => v.shrink_to_fit(),
            13 => v = v.clone(),
            14 if s.prob(1, 4) => v.clear(),
            _ => v.push(e),
        }
        spare_zero("IntVector", &v, v.len() as usize * k);
    }
    v
}

fn push_all<B: Blk>(v: &mut BitVector<B>, m: &[bool]) {
    for &b in m {
        v.push_bit(b);
    }
}

/// Makes a bit vector of these contents, by one of several detours.
fn make<B: Blk>(s: &mut Src, m: &[bool], way: usize) -> BitVector<B> {
    let n = m.len();
    let nb = nblocks::<B>(n);
    let junk = s.size(3 * B::BITS);
    let mut v = BitVector::new();
    match way {
        0 => push_all(&mut v, m),
        1 => {
            push_all(&mut v, m);
            for _ in 0..junk {
                v.push_bit(true);
            }
            for _ in 0..junk {
                v.pop_bit();
            }
        }
        2 => {
            push_all(&mut v, m);
            for _ in 0..junk {
                v.push_bit(true);
            }
            v.truncate(n as u64);
        }
        3 => {
            push_all(&mut v, m);
            v.resize((n + junk) as u64, true);
            v.resize(n as u64, s.bool());
        }
        4 => {
            v = BitVector::with_fill(n as u64, true);
            for i in 0..n {
                v.set_bit(i as u64, m[i]);
            }
        }
        5 => {
            v = BitVector::block_with_fill(nb, B::of(u64::MAX));
            for i in 0..nb {
                let x = mblock::<B>(m, i) | s.word() & !low(B::BITS.min(n - i * B::BITS));
                v.set_block(i, B::of(x));
            }
            v.truncate(n as u64);
        }
        6 => {
            v = BitVector::with_fill(n as u64, true);
            for i in 0..nb {
                let x = mblock::<B>(m, i) | s.word() & !low(B::BITS.min(n - i * B::BITS));
                v.set_block(i, B::of(x));
            }
        }
        7 => {
            for i in 0..nb {
                v.push_block(B::of(mblock::<B>(m, i) | s.word() & !low(B::BITS.min(n - i * B::BITS))));
            }
            v.truncate(n as u64);
        }
        8 => {
            push_all(&mut v, m);
            v.push_block(B::of(u64::MAX));
            v.block_resize(nb + 2, B::of(u64::MAX));
            v.block_truncate(nb);
            v.truncate(n as u64);
        }
        9 => {
            v = BitVector::with_capacity(junk as u64 * 7);
            v.resize(junk as u64, true);
            v.clear();
            push_all(&mut v, m);
            if s.bool() {
                v.shrink_to_fit();
            }
        }
        10 => {
            let mut b = BitBuffer::append(BitVector::new());
            for &x in m {
                b.write_bit(!x).unwrap();
            }
            b.seek(0).unwrap();
            for &x in m {
                b.write_bit(x).unwrap();
            }
            v = b.into_inner();
        }
        11 => {
            v.resize(n as u64, true);
            let mut i = 0;
            while i < n {
                let c = B::BITS.min(n - i).min(1 + s.size(B::BITS - 1));
                v.set_bits(i as u64, c, B::of(mget(m, i, c) | s.word() & !low(c)));
                i += c;
            }
        }
        _ => {
            push_all(&mut v, m);
            v.align_block(true);
            v.block_reserve(3);
            v.block_resize(nb, B::of(u64::MAX));
            v.truncate(n as u64);
            v = v.clone();
        }
    }
    v
}

fn ints<B: Blk>(s: &mut Src) {
    let k = gen_width(s, B::BITS);
    let (mut h, m) = if s.bool() {
        let v = int_history::<B>(s, k);
        let m = (0..v.len() * k as u64).map(|i| v.get_bit(i)).collect();
        (Some(v), m)
    } else {
        let n = gen_len_big(s, 3000, 1 << 20, 30_000) / k;
        (None, gen_bits(s, n * k))
    };
    let n = m.len() / k;
    let ms = [m.clone(), vary(s, &m, k), vary(s, &m, k)];
    s.note(|| format!("IntVector<{}>({}) contents {}", B::NAME, k, show(&m)));
    let mut ways = [0; 3];
    let v = [0, 1, 2].map(|i| {
        let w = if i == 0 && h.is_some() { 10 } else { s.idx(10) };
        ways[i] = w;
        let v = match (i, h.take()) {
            (0, Some(v)) => v,
            (_, o) => {
                h = o;
                make_int::<B>(s, &ms[i], k, w)
            }
        };
        s.note(|| format!("vector {}: {} by way {}", i, show(&ms[i]), w));
        assert!(v.len() == (ms[i].len() / k) as u64);
        check_quick("made", &v, &ms[i], s);
        spare_zero("IntVector", &v, ms[i].len());
        v
    });
    relations(&v, |i, j| ms[i] == ms[j]);
    s.nontrivial_if(n > 0 && n * k % B::BITS != 0 && ways[0] != ways[1] && ms[0] == ms[1]);
}

fn make_int<B: Blk>(s: &mut Src, m: &[bool], k: usize, way: usize) -> IntVector<B> {
    let n = m.len() / k;
    let nb = nblocks::<B>(m.len());
    let junk = s.size(3 * B::BITS / k + 2);
    let ones = B::of(low(k));
    let el = |i: usize| B::of(mget(m, i * k, k));
    let mut v = IntVector::new(k);
    let push_all = |v: &mut IntVector<B>| (0..n).for_each(|i| v.push(el(i)));
    match way {
        0 => push_all(&mut v),
        1 => {
            push_all(&mut v);
            (0..junk).for_each(|_| v.push(ones));
            (0..junk).for_each(|_| {
                v.pop();
            });
        }
        2 => {
            push_all(&mut v);
            (0..junk).for_each(|_| v.push(ones));
            v.truncate(n as u64);
        }
        3 => {
            push_all(&mut v);
            v.resize((n + junk) as u64, ones);
            v.resize(n as u64, ones);
        }
        4 => {
            v = IntVector::with_fill(k, n as u64, ones);
            (0..n).for_each(|i| v.set(i as u64, el(i)));
        }
        5 => {
            v = IntVector::block_with_fill(k, nb, B::of(u64::MAX));
            (0..n).for_each(|i| v.set(i as u64, el(i)));
            v.truncate(n as u64);
        }
        6 => {
            v = IntVector::with_fill(k, n as u64, ones);
            for i in 0..nb {
                let x = mblock::<B>(m, i) | s.word() & !low(B::BITS.min(m.len() - i * B::BITS));
                v.set_block(i, B::of(x));
            }
        }
        7 => {
            push_all(&mut v);
            v.block_resize(nb + 2, B::of(u64::MAX));
            v.block_truncate(nb + 1);
            v.truncate(n as u64);
        }
        8 => {
            v = IntVector::with_capacity(k, junk as u64 * 7);
            v.resize(junk as u64, ones);
            v.clear();
            push_all(&mut v);
            if s.bool() {
                v.shrink_to_fit();
            }
        }
        _ => {
            v.resize(n as u64, ones);
            for i in 0..n * k {
                v.set_bit(i as u64, m[i]);
            }
            v = v.clone();
        }
    }
    v
}

/// Vectors of every length up to a few blocks, made by every detour, next to
/// others of the same contents and of contents that differ in one bit.
fn every_detour() {
    fn near(m: &[bool], unit: usize) -> Vec<Vec<bool>> {
        let n = m.len();
        let mut r = vec![];
        for i in [0, n / 2, n.saturating_sub(unit), n.wrapping_sub(1)] {
            if i < n {
                let mut x = m.to_vec();
                x[i] ^= true;
                r.push(x);
            }
        }
        let mut x = m.to_vec();
        mpush(&mut x, unit, 0);
        r.push(x);
        r
    }
    fn go<B: Blk>() {
        let mut s = engine::fixed_src();
        let k = B::BITS;
        for n in (0..=2 * k + 2).chain(4 * k - 1..=4 * k + 1).chain(8 * k - 1..=8 * k + 1) {
            let m: Vec<bool> = (0..n).map(|i| n % 3 == 0 || (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 62 > 1).collect();
            let mut plain = BitVector::new();
            push_all(&mut plain, &m);
            let others: Vec<BitVector<B>> = near(&m, 1).iter().map(|x| make(&mut s, x, n % 13)).collect();
            for way in 0..13 {
                let v: BitVector<B> = make(&mut s, &m, way);
                spare_zero("BitVector", &v, n);
                relations(&[v.clone(), plain.clone(), make(&mut s, &m, (way + n) % 13)], |_, _| true);
                for o in &others {
                    relations(&[v.clone(), plain.clone(), o.clone()], |i, j| (i == 2) == (j == 2));
                }
            }
        }
        for w in 1..=k {
            for n in (0..=4).chain(k / w..=k / w + 1).chain(2 * k / w..=2 * k / w + 1).chain([k, k + 1]) {
                let m: Vec<bool> = (0..n * w).map(|i| n % 3 == 0 || (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 62 > 1).collect();
                let plain: IntVector<B> = make_int(&mut s, &m, w, 0);
                let others: Vec<IntVector<B>> = near(&m, w).iter().map(|x| make_int(&mut s, x, w, n % 10)).collect();
                for way in 0..10 {
                    let v = make_int(&mut s, &m, w, way);
                    spare_zero("IntVector", &v, n * w);
                    for o in &others {
                        relations(&[v.clone(), plain.clone(), o.clone()], |i, j| (i == 2) == (j == 2));
                    }
                }
            }
        }
    }
    go::<u8>();
    go::<u16>();
    go::<u32>();
    go::<u64>();
    go::<usize>();
    go::<Own>();
}
