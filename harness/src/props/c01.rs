//! C01: a bit vector holds exactly the bits of its history.

use common::*;
use engine::{Prop, Src};
use succinct::bit_vec::{BitSliceMut, BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::stream::{BitBuffer, BitWrite};

pub const PROP: Prop = Prop {
    id: "C01",
    rule: "a history of up to 60 operations on one bit vector (any block type, every constructor and \
           mutator; or a bit vector type with the default push operations) next to a list of bits; \
           after every operation length, blocks and bits are compared, at the end everything incl. \
           iteration and rendering. Non-trivial: at least 3 operations changed the contents, and the \
           vector crossed a block boundary or was shortened",
    case,
    directed: &[("empty spans", empty_spans), ("every step between small states", every_step), ("large", large)],
};

pub fn case(s: &mut Src) {
    match s.weighted(&[14, 1, 1, 1]) {
        0 => with_any_block!(s, history(s)),
        1 => pushes(s, Vec::<bool>::new()),
        2 => with_block!(s, only_bits(s)),
        _ => with_block!(s, only_blocks(s)),
    }
}

fn history<B: Blk>(s: &mut Src) {
    let max = if s.thorough { 300_000 } else { 20_000 };
    let (mut v, mut m): (BitVector<B>, Vec<bool>) = construct(s, max);
    check_quick("new vector", &v, &m, s);
    let mut changes = 0;
    let mut crossed = false;
    let mut longest = m.len();
    let steps = if s.thorough { 120 } else { 60 };
    let w = s.swarm(&[6, 5, 3, 3, 3, 4, 2, 6, 5, 5, 4, 1, 3, 2, 1, 2, 2]);
    for _ in 0..steps {
        if !s.more(24, 25) {
            break;
        }
        let before = m.len();
        let op = step(s, &w, &mut v, &mut m, max);
        if !matches!(op, "reserve" | "clone") {
            changes += 1;
        }
        s.label(op);
        crossed |= before / B::BITS != m.len() / B::BITS || m.len() < before;
        longest = longest.max(m.len());
        check_quick(op, &v, &m, s);
    }
    s.label_if(longest > 512, "over 512 bits");
    s.label_if(longest > 8192, "over 8192 bits");
    s.nontrivial_if(changes >= 3 && crossed);
    finish(&v, &m, s);
}

fn finish<B: Blk>(v: &BitVector<B>, m: &[bool], s: &mut Src) {
    check_reads("final", v, m, s);
    let mut n = 0;
    for (i, b) in v.iter().enumerate() {
        assert!(i < m.len() && b == m[i], "iteration gives {} at {} of {}", b, i, m.len());
        n += 1;
    }
    assert!(n == m.len(), "iteration gives {} of {} bits", n, m.len());
    let back: Vec<bool> = v.iter().rev().collect();
    assert!(back.len() == m.len() && back.iter().rev().eq(m.iter()), "reverse iteration differs");
    let text = format!("{:b}", v);
    assert!(
        text.len() == m.len() && text.bytes().zip(m).all(|(c, &b)| c == if b { b'1' } else { b'0' }),
        "binary rendering of {} is {}",
        show(m),
        text
    );
}

fn gen_long(s: &mut Src, max: usize) -> usize {
    let big = if s.thorough { 1 << 22 } else { 1 << 20 };
    gen_len_big(s, max, big, 4000)
}

fn construct<B: Blk>(s: &mut Src, max: usize) -> (BitVector<B>, Vec<bool>) {
    match s.weighted(&[3, 2, 2, 4, 4, 1, 3]) {
        0 => {
            s.note(|| format!("BitVector::<{}>::new()", B::NAME));
            (BitVector::new(), vec![])
        }
        1 => {
            let c = gen_long(s, max);
            s.note(|| format!("BitVector::<{}>::with_capacity({})", B::NAME, c));
            (BitVector::with_capacity(c as u64), vec![])
        }
        2 => {
            let c = gen_long(s, max) / 8;
            s.note(|| format!("BitVector::<{}>::block_with_capacity({})", B::NAME, c));
            (BitVector::block_with_capacity(c), vec![])
        }
        3 => {
            let c = gen_long(s, max);
            let b = s.bool();
            s.note(|| format!("BitVector::<{}>::with_fill({}, {})", B::NAME, c, b));
            (BitVector::with_fill(c as u64, b), vec![b; c])
        }
        4 => {
            let c = gen_long(s, max) / B::BITS;
            let w = s.bits(B::BITS);
            s.note(|| format!("BitVector::<{}>::block_with_fill({}, {:#x})", B::NAME, c, w));
            let mut m = vec![];
            for _ in 0..c {
                mpush(&mut m, B::BITS, w);
            }
            (BitVector::block_with_fill(c, B::of(w)), m)
        }
        5 => {
            s.note(|| format!("BitVector::<{}>::default()", B::NAME));
            (BitVector::default(), vec![])
        }
        _ => {
            let n = gen_long(s, max);
            let m = gen_bits(s, n);
            s.note(|| format!("BitVector::<{}> of pushed bits {}", B::NAME, show(&m)));
            let mut v = BitVector::new();
            for &b in &m {
                v.push_bit(b);
            }
            (v, m)
        }
    }
}

fn step<B: Blk>(s: &mut Src, w: &[u32], v: &mut BitVector<B>, m: &mut Vec<bool>, max: usize) -> &'static str {
    let k = B::BITS;
    match s.weighted(w) {
        0 => {
            let n = 1 + if s.prob(1, 8) { s.size(3000) } else { s.size(2 * k) };
            let w = s.word();
            s.note(|| format!("push {} bits from {:#x}", n, w));
            for i in 0..n {
                let b = w >> (i % 64) & 1 == 1;
                v.push_bit(b);
                m.push(b);
            }
            "push_bit"
        }
        1 => {
            let n = 1 + s.size(2 * k);
            s.note(|| format!("pop {} bits", n));
            for _ in 0..n {
                let a = v.pop_bit();
                let b = m.pop();
                assert!(a == b, "pop_bit returned {:?}, expected {:?}; {} bits left", a, b, m.len());
            }
            "pop_bit"
        }
        2 | 3 | 4 => {
            write_some(v, m, s);
            "write"
        }
        5 => {
            let w = s.bits(k);
            s.note(|| format!("push_block({:#x})", w));
            v.push_block(B::of(w));
            while m.len() % k != 0 {
                m.push(false);
            }
            mpush(m, k, w);
            "push_block"
        }
        6 => {
            let b = s.bool();
            s.note(|| format!("align_block({})", b));
            v.align_block(b);
            while m.len() % k != 0 {
                m.push(b);
            }
            "align_block"
        }
        7 => {
            let n = new_len(s, m.len(), max, k);
            let b = s.bool();
            s.note(|| format!("resize({}, {})", n, b));
            v.resize(n as u64, b);
            m.resize(n, b);
            "resize"
        }
        8 => {
            let n = new_len(s, m.len(), max, k) / k;
            let w = s.bits(k);
            s.note(|| format!("block_resize({}, {:#x})", n, w));
            v.block_resize(n, B::of(w));
            let old = nblocks::<B>(m.len());
            if n < old {
                m.truncate(n * k);
            } else {
                m.resize(old * k, false);
                for _ in old..n {
                    mpush(m, k, w);
                }
            }
            "block_resize"
        }
        9 => {
            let n = new_len(s, m.len(), max, k);
            s.note(|| format!("truncate({})", n));
            v.truncate(n as u64);
            m.truncate(n);
            "truncate"
        }
        10 => {
            let n = new_len(s, m.len(), max, k) / k;
            s.note(|| format!("block_truncate({})", n));
            v.block_truncate(n);
            if n < nblocks::<B>(m.len()) {
                m.truncate(n * k);
            }
            "block_truncate"
        }
        11 => {
            s.note(|| "clear()".into());
            v.clear();
            m.clear();
            "clear"
        }
        12 => {
            let n = gen_len(s, 3000);
            match s.idx(5) {
                0 => {
                    s.note(|| format!("reserve({})", n));
                    v.reserve(n as u64)
                }
                1 => {
                    s.note(|| format!("reserve_exact({})", n));
                    v.reserve_exact(n as u64)
                }
                2 => {
                    s.note(|| format!("block_reserve({})", n / k));
                    v.block_reserve(n / k)
                }
                3 => {
                    s.note(|| format!("block_reserve_exact({})", n / k));
                    v.block_reserve_exact(n / k)
                }
                _ => {
                    s.note(|| "shrink_to_fit()".into());
                    v.shrink_to_fit()
                }
            }
            "reserve"
        }
        13 => {
            let n = 1 + s.size(3 * k);
            let w = s.word();
            let at = s.size(m.len());
            s.note(|| format!("write {} bits of {:#x} through a bit buffer at {}", n, w, at));
            let mut b = BitBuffer::from(std::mem::take(v));
            b.seek(at as u64).unwrap();
            for i in 0..n {
                let bit = w >> (i % 64) & 1 == 1;
                b.write_bit(bit).unwrap();
                if at + i < m.len() {
                    m[at + i] = bit
                } else {
                    m.push(bit)
                }
            }
            *v = b.into_inner();
            "bit buffer"
        }
        14 => {
            s.note(|| "replaced by its clone".into());
            let c = v.clone();
            *v = c;
            "clone"
        }
        15 => {
            let (a, n) = gen_span(s, m.len(), m.len());
            s.note(|| format!("write through a slice {}..{}", a, a + n));
            let mut sl = BitSliceMut::new(v, a as u64..(a + n) as u64);
            for _ in 0..3 {
                let (p, c) = gen_span(s, n, k);
                let w = s.bits(k);
                sl.set_bits(p as u64, c, B::of(w));
                mset(m, a + p, c, w);
            }
            "slice"
        }
        _ => {
            let n = m.len();
            let t = 1 + s.size(6);
            s.note(|| format!("{} rounds of pop and push near the end", t));
            for _ in 0..t {
                let c = s.size(k + 1).min(n);
                for _ in 0..c {
                    assert!(v.pop_bit() == m.pop(), "pop_bit differs");
                }
                let w = s.word();
                for i in 0..c {
                    v.push_bit(w >> (i % 64) & 1 == 1);
                    m.push(w >> (i % 64) & 1 == 1);
                }
            }
            "pop and push"
        }
    }
}

/// A length near the old one, near a block boundary, or any.
fn new_len(s: &mut Src, old: usize, max: usize, k: usize) -> usize {
    match s.weighted(&[3, 3, 3]) {
        0 => s.size((old + old / 2 + 2 * k).min(max)),
        1 => {
            let d = s.size(2 * k);
            if s.bool() {
                old + d
            } else {
                old.saturating_sub(d)
            }
        }
        _ => {
            let b = s.size(nb_cap(old, k) + 2);
            (b * k + 1).saturating_sub(s.size(2))
        }
    }
}

fn nb_cap(old: usize, k: usize) -> usize {
    old / k + 1
}

fn only_bits<B: Blk>(s: &mut Src) {
    s.note(|| format!("user type defining bits only, {}", B::NAME));
    pushes::<B, OnlyBits<B>>(s, OnlyBits::new(&[]))
}

fn only_blocks<B: Blk>(s: &mut Src) {
    let junk = s.word();
    s.note(|| format!("user type defining blocks only, {}, junk {:#x}", B::NAME, junk));
    pushes::<B, OnlyBlocks<B>>(s, OnlyBlocks::new(&[], junk))
}

/// Histories of the trait's own push operations.
fn pushes<B: Blk, V: BitVecPush<Block = B>>(s: &mut Src, mut v: V) {
    let mut m = vec![];
    let k = B::BITS;
    let mut ops = 0;
    s.label("other push types");
    while s.more(19, 20) && ops < 60 {
        ops += 1;
        match s.idx(5) {
            0 => {
                let n = 1 + s.size(2 * k);
                let w = s.word();
                s.note(|| format!("push {} bits from {:#x}", n, w));
                for i in 0..n {
                    v.push_bit(w >> (i % 64) & 1 == 1);
                    m.push(w >> (i % 64) & 1 == 1);
                }
            }
            1 => {
                let n = 1 + s.size(k);
                s.note(|| format!("pop {} bits", n));
                for _ in 0..n {
                    assert!(v.pop_bit() == m.pop(), "pop_bit differs");
                }
            }
            2 => {
                let b = s.bool();
                s.note(|| format!("align_block({})", b));
                v.align_block(b);
                while m.len() % k != 0 {
                    m.push(b);
                }
            }
            3 => {
                let w = s.bits(k);
                s.note(|| format!("push_block({:#x})", w));
                v.push_block(B::of(w));
                while m.len() % k != 0 {
                    m.push(false);
                }
                mpush(&mut m, k, w);
            }
            _ => {
                write_some(&mut v, &mut m, s);
            }
        }
        check_quick("push type", &v, &m, s);
    }
    s.nontrivial_if(ops >= 3 && m.len() > k);
    check_reads("push type", &v, &m, s);
}

fn empty_spans() {
    let mut v: BitVector<u8> = BitVector::new();
    assert!(v.get_bits(0, 0) == 0);
    v.set_bits(0, 0, 0);
    v.push_block(0xA5);
    assert!(v.get_bits(8, 0) == 0);
    v.set_bits(8, 0, 0xFF);
    assert!(v.get_bits(0, 8) == 0xA5);
}

/// Some vectors well beyond the generated sizes.
fn large() {
    fn go<B: Blk>(n: usize) {
        let bit = |i: usize| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 60 & 1 == 1;
        let mut v: BitVector<B> = BitVector::with_fill(n as u64, true);
        v.truncate(n as u64 / 2);
        v.resize(n as u64, false);
        for i in 0..n {
            assert!(v.get_bit(i as u64) == (i < n / 2));
            v.set_bit(i as u64, bit(i));
        }
        for i in n..n + n / 4 {
            v.push_bit(bit(i));
        }
        let l = n + n / 4;
        v.resize(l as u64 + 100_003, true);
        assert!(v.bit_len() == l as u64 + 100_003);
        for i in 0..l + 100_003 {
            assert!(v.get_bit(i as u64) == (i >= l || bit(i)), "large vector: bit {}", i);
        }
        for i in (0..l + 100_003).rev().take(150_000) {
            assert!(v.pop_bit() == Some(i >= l || bit(i)), "large vector: pop {}", i);
        }
        for (i, b) in v.iter().enumerate() {
            assert!(b == (i >= l || bit(i)));
        }
    }
    go::<u8>(1_200_001);
    go::<u16>(1_200_031);
    go::<u32>(1_111_111);
    go::<u64>(1_048_576);
    go::<usize>(2_097_151);
}

/// Every operation, once, on vectors of every length up to a few blocks (and
/// around the lengths where blocks are handled in groups), with every argument
/// that leads to another such length.
fn every_step() {
    fn go<B: Blk>() {
        let k = B::BITS;
        let mut lens: Vec<usize> = (0..=(9 * k + 2).min(530)).collect();
        for g in [2, 4, 8, 16, 32, 64] {
            lens.extend(g * k - 2..=g * k + 1);
        }
        lens.extend([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097]);
        lens.sort();
        lens.dedup();
        let word = |p: usize, i: usize| match p {
            0 => low(k),
            _ => (i as u64 + 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 3 & low(k) | 1,
        };
        let make = |p: usize, n: usize| {
            let mut v: BitVector<B> = BitVector::new();
            (0..n / k).for_each(|i| v.push_block(B::of(word(p, i))));
            (0..n % k).for_each(|i| v.push_bit(word(p, n / k) >> i & 1 == 1));
            v
        };
        // Of pattern `p` up to `n`, then of `rest`.
        let is = |v: &BitVector<B>, p: usize, n: usize, rest: u64, l: usize, what: &str, arg: usize| {
            assert!(v.bit_len() == l as u64, "{} of {} bits, {}: bit_len is {}, expected {}", what, n, arg, v.bit_len(), l);
            assert!(v.block_len() == l.div_ceil(k), "{} of {} bits, {}: block_len is {}", what, n, arg, v.block_len());
            for i in 0..l.div_ceil(k) {
                let old = low(n.saturating_sub(i * k).min(k));
                let want = (word(p, i) & old | rest & !old) & low((l - i * k).min(k));
                let got = v.get_block(i).to();
                assert!(got == want, "{} of {} bits (pattern {}, {}), {}: block {} is {:#x}, expected {:#x}", what, n, p, B::NAME, arg, i, got, want);
            }
        };
        let ones = low(k);
        for &n in &lens {
            for (b, fill) in [(false, 0), (true, ones)] {
                let v: BitVector<B> = BitVector::with_fill(n as u64, b);
                is(&v, 0, 0, fill, n, "with_fill", n);
            }
            if n <= 140 {
                let w = word(1, n);
                let v: BitVector<B> = BitVector::block_with_fill(n, B::of(w));
                assert!(v.bit_len() == (n * k) as u64 && (0..n).all(|i| v.get_block(i).to() == w), "block_with_fill({}, {:#x})", n, w);
            }
            for p in 0..2 {
                let v = make(p, n);
                is(&v, p, n, 0, n, "a vector", 0);
                for &l in &lens {
                    for (b, fill) in [(false, 0), (true, ones)] {
                        let mut w = v.clone();
                        w.resize(l as u64, b);
                        is(&w, p, n, fill, l, "resize", l);
                    }
                    let mut w = v.clone();
                    w.truncate(l as u64);
                    is(&w, p, n.min(l), 0, n.min(l), "truncate", l);
                    if l <= n.div_ceil(k) + 20 {
                        let mut w = v.clone();
                        w.block_truncate(l);
                        let m = if l < n.div_ceil(k) { l * k } else { n };
                        is(&w, p, n, 0, m, "block_truncate", l);
                        let mut w = v.clone();
                        w.block_resize(l, B::of(ones));
                        assert!(w.bit_len() == (l * k) as u64, "block_resize({}) of {} bits", l, n);
                        for i in 0..l {
                            let want = if i < n.div_ceil(k) { word(p, i) & low((n - i * k).min(k)) } else { ones };
                            assert!(w.get_block(i).to() == want, "block_resize({}) of {} bits: block {}", l, n, i);
                        }
                    }
                }
                for (b, fill) in [(false, 0), (true, ones)] {
                    let mut w = v.clone();
                    w.align_block(b);
                    is(&w, p, n, fill, n.div_ceil(k) * k, "align_block", fill as usize);
                    let mut w = v.clone();
                    w.push_bit(b);
                    is(&w, p, n, fill, n + 1, "push_bit", fill as usize);
                    assert!(w.pop_bit() == Some(b), "pop_bit after push_bit of {} bits", n);
                    is(&w, p, n, 0, n, "push_bit and pop_bit", 0);
                }
                let mut w = v.clone();
                w.push_block(B::of(ones));
                let blocks = n.div_ceil(k);
                assert!(w.get_block(blocks).to() == ones, "push_block of {} bits: last block", n);
                w.truncate((blocks * k) as u64);
                is(&w, p, n, 0, blocks * k, "push_block and truncate", 0);
                assert!((&v).into_iter().enumerate().all(|(i, b)| b == (word(p, i / k) >> i % k & 1 == 1)), "iteration of {} bits", n);
                assert!(v.iter().rev().zip((0..n).rev()).all(|(b, i)| b == (word(p, i / k) >> i % k & 1 == 1)), "iteration of {} bits from the back", n);
            }
        }
    }
    go::<u8>();
    go::<u16>();
    go::<u32>();
    go::<u64>();
    go::<usize>();
    go::<Own>();
}
