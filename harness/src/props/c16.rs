//! C16: capacity is really there, and capacity operations change nothing else.

use common::*;
use engine::{alloc, catch, Prop, Src};
use succinct::bit_vec::{BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::int_vec::{IntVec, IntVector};

pub const PROP: Prop = Prop {
    id: "C16",
    rule: "a history of up to 50 operations on a bit or integer vector (any block type and width): \
           constructions with capacity, ordinary and exact reservations of bits, elements or blocks (also \
           of amounts that overflow), shrinking, clearing, truncating, popping, and growth within the \
           reported capacity by pushes, block pushes, resizes and alignment, the allocator's calls being \
           counted; contents and reported capacity are compared after each; or large reservations, of up to 2^32 bits, \
           on a small vector. Non-trivial: at least 2 reservations of a non-empty vector and one growth up \
           to the capacity, or large reservations",
    case,
    directed: &[("reserving on vectors in every small state", small_states)],
};

/// The operations that bit and integer vectors have in common.
trait Vect<B: Blk>: BitVec<Block = B> + Clone {
    const INT: bool;
    fn with_cap(k: usize, n: u64) -> Self;
    fn with_blocks(k: usize, n: usize) -> Self;
    fn cap(&self) -> u64;
    fn block_cap(&self) -> usize;
    fn res(&mut self, n: u64);
    fn res_exact(&mut self, n: u64);
    fn block_res(&mut self, n: usize);
    fn block_res_exact(&mut self, n: usize);
    fn shrink(&mut self);
    fn push_one(&mut self, x: u64);
    fn pop_one(&mut self);
    fn trunc(&mut self, n: u64);
    fn block_trunc(&mut self, n: usize);
    fn clear_all(&mut self);
    fn grow(&mut self, n: u64, x: u64);
    fn block_grow(&mut self, n: usize, x: u64);
}

macro_rules! vect {
    ($t:ident, $int:expr, ($k:ident, $n:ident), $cap:expr, $bcap:expr, ($v:ident, $x:ident), $push:expr, $fill:expr) => {
        impl<B: Blk> Vect<B> for $t<B> {
            const INT: bool = $int;
            fn with_cap($k: usize, $n: u64) -> Self {
                $cap
            }
            fn with_blocks($k: usize, $n: usize) -> Self {
                $bcap
            }
            fn cap(&self) -> u64 {
                self.capacity()
            }
            fn block_cap(&self) -> usize {
                self.block_capacity()
            }
            fn res(&mut self, n: u64) {
                self.reserve(n)
            }
            fn res_exact(&mut self, n: u64) {
                self.reserve_exact(n)
            }
            fn block_res(&mut self, n: usize) {
                self.block_reserve(n)
            }
            fn block_res_exact(&mut self, n: usize) {
                self.block_reserve_exact(n)
            }
            fn shrink(&mut self) {
                self.shrink_to_fit()
            }
            fn push_one(&mut self, $x: u64) {
                let $v = self;
                $push
            }
            fn pop_one(&mut self) {
                pop(self)
            }
            fn trunc(&mut self, n: u64) {
                self.truncate(n)
            }
            fn block_trunc(&mut self, n: usize) {
                self.block_truncate(n)
            }
            fn clear_all(&mut self) {
                self.clear()
            }
            fn grow(&mut self, n: u64, $x: u64) {
                self.resize(n, $fill)
            }
            fn block_grow(&mut self, n: usize, x: u64) {
                self.block_resize(n, B::of(x))
            }
        }
    };
}

trait Pop {
    fn pop_it(&mut self);
}
impl<B: Blk> Pop for BitVector<B> {
    fn pop_it(&mut self) {
        self.pop_bit();
    }
}
impl<B: Blk> Pop for IntVector<B> {
    fn pop_it(&mut self) {
        self.pop();
    }
}
fn pop<P: Pop>(p: &mut P) {
    p.pop_it()
}

vect!(BitVector, false, (_k, n), BitVector::with_capacity(n), BitVector::block_with_capacity(n),
      (v, x), v.push_bit(x & 1 == 1), x & 1 == 1);
vect!(IntVector, true, (k, n), IntVector::with_capacity(k, n), IntVector::block_with_capacity(k, n),
      (v, x), v.push(B::of(x)), B::of(x));

pub fn case(s: &mut Src) {
    if s.bool() {
        with_any_block!(s, bits(s))
    } else {
        with_any_block!(s, ints(s))
    }
}

fn bits<B: Blk>(s: &mut Src) {
    s.label("bit vector");
    history::<B, BitVector<B>>(s, 1, &mut |s, v, m| extra(s, v, m));
}

fn ints<B: Blk>(s: &mut Src) {
    s.label("integer vector");
    let k = gen_width(s, B::BITS);
    history::<B, IntVector<B>>(s, k, &mut |_, v, m| {
        let n = (m.len() / k) as u64;
        assert!(v.len() == n && v.is_empty() == (n == 0));
        false
    });
}

/// Growth that only bit vectors have: aligning, pushing whole blocks.
fn extra<B: Blk>(s: &mut Src, v: &mut BitVector<B>, m: &mut Vec<bool>) -> bool {
    if !s.prob(1, 4) {
        return false;
    }
    let nb = nblocks::<B>(m.len());
    let cap = v.block_capacity();
    let x = s.bits(B::BITS);
    if s.bool() {
        s.note(|| "align_block(true)".into());
        let c = alloc::calls();
        v.align_block(true);
        assert!(alloc::calls() == c, "align_block reallocates within the last block");
        m.resize(nb * B::BITS, true);
    } else if nb < cap {
        s.note(|| format!("push_block up to the capacity of {} blocks", cap));
        m.resize(nb * B::BITS, false);
        let c = alloc::calls();
        for _ in nb..cap {
            v.push_block(B::of(x));
        }
        let d = alloc::calls() - c;
        assert!(d == 0, "push_block reallocates {} times within the capacity of {} blocks", d, cap);
        for _ in nb..cap {
            mpush(m, B::BITS, x);
        }
        return true;
    }
    false
}

fn overflow_amount(s: &mut Src, len: u64, k: usize) -> u64 {
    // Amounts for which the bit count overflows 64 bits.
    let max = u64::MAX / k as u64;
    s.brange(max - len + 1, u64::MAX)
}

fn history<B: Blk, V: Vect<B>>(s: &mut Src, k: usize, extra: &mut dyn FnMut(&mut Src, &mut V, &mut Vec<bool>) -> bool) {
    if s.prob(1, 16) {
        return large::<B, V>(s, k);
    }
    let max = if s.thorough { 100_000 } else { 6_000 };
    let mut m: Vec<bool> = vec![];
    let mut v = if s.bool() {
        let n = gen_len_big(s, max, 1 << 18, 400) / k;
        s.note(|| format!("with_capacity({}) of width {}, {}", n, k, B::NAME));
        let v = V::with_cap(k, n as u64);
        assert!(v.cap() >= n as u64, "with_capacity({}): the capacity is {}", n, v.cap());
        v
    } else {
        let n = gen_len_big(s, max, 1 << 18, 400) / B::BITS;
        s.note(|| format!("block_with_capacity({}) of width {}, {}", n, k, B::NAME));
        let v = V::with_blocks(k, n);
        assert!(v.block_cap() >= n, "block_with_capacity({}): the capacity is {} blocks", n, v.block_cap());
        v
    };
    let mut reserved = 0;
    let mut filled = false;
    let w = s.swarm(&[4, 4, 3, 3, 2, 3, 2, 2, 2, 4, 4, 3, 1, 1, 2]);
    for _ in 0..50 {
        // Doubling the capacity and growing up to it must not get out of hand.
        if !s.more(20, 21) || v.block_cap() * B::BITS > 1 << 18 {
            break;
        }
        let n = m.len() / k;
        let nb = nblocks::<B>(m.len());
        let cap = v.cap();
        let bcap = v.block_cap();
        assert!(bcap >= nb && cap >= n as u64, "capacity {} ({} blocks) below the length {} ({})", cap, bcap, n, nb);
        let left = bcap * B::BITS / k - n;
        let x = if V::INT { s.bits(k) & low(k) } else { s.below(2) };
        let calls = alloc::calls();
        match s.weighted(&w) {
            op @ 0..=3 => {
                let block = op >= 2;
                let exact = op % 2 == 1;
                let a = match s.idx(3) {
                    0 => s.size(if block { 3 } else { 3 * B::BITS / k + 2 }),
                    1 if block => (bcap - nb) + s.below(3) as usize,
                    1 => left + s.below(3) as usize,
                    _ => gen_len_big(s, max, 1 << 18, 400) / if block { B::BITS } else { k },
                };
                s.note(|| format!("{}reserve{}({}) with length {}, capacity {}",
                    if block { "block_" } else { "" }, if exact { "_exact" } else { "" }, a, n, cap));
                let calls = alloc::calls();
                match op {
                    0 => v.res(a as u64),
                    1 => v.res_exact(a as u64),
                    2 => v.block_res(a),
                    _ => v.block_res_exact(a),
                }
                let calls = alloc::calls() - calls;
                let enough = if block {
                    assert!(v.block_cap() >= nb + a, "reserving {} blocks on {}: the capacity is {} blocks", a, nb, v.block_cap());
                    bcap >= nb + a
                } else {
                    assert!(v.cap() >= (n + a) as u64, "reserving {} on {}: the capacity is {} (was {})", a, n, v.cap(), cap);
                    left >= a
                };
                if exact && enough {
                    assert!(calls == 0 && v.block_cap() == bcap, "exact reservation of {} reallocates although the capacity suffices", a);
                }
                reserved += (n > 0) as usize;
                s.label("reserve");
            }
            4 if n > 0 => {
                let a = overflow_amount(s, n as u64, k);
                s.note(|| format!("reserve({}), which overflows", a));
                let exact = s.bool();
                let r = catch(|| if exact { v.res_exact(a) } else { v.res(a) });
                assert!(r.is_err(), "reserving {} on {} succeeds", a, n);
                assert!(v.block_cap() == bcap);
                s.label("overflowing reservation");
            }
            5 => {
                s.note(|| "shrink_to_fit()".into());
                v.shrink();
                assert!(v.block_cap() == nb, "shrink_to_fit leaves a capacity of {} blocks for {}", v.block_cap(), nb);
                s.label("shrink");
            }
            6 => {
                let c = n.saturating_sub(s.size(n));
                s.note(|| format!("truncate({})", c));
                let calls = alloc::calls();
                v.trunc(c as u64);
                kept(&v, "truncate", alloc::calls() - calls, bcap);
                m.truncate(c * k);
            }
            7 => {
                let c = s.size(nb + 1);
                s.note(|| format!("block_truncate({})", c));
                let calls = alloc::calls();
                v.block_trunc(c);
                kept(&v, "block_truncate", alloc::calls() - calls, bcap);
                if c < nb {
                    m.truncate(c * B::BITS / k * k);
                }
            }
            8 => {
                let c = 1 + s.size(n / 2 + 2);
                s.note(|| format!("pop {} times", c));
                let calls = alloc::calls();
                for _ in 0..c {
                    v.pop_one();
                }
                kept(&v, "pop", alloc::calls() - calls, bcap);
                m.truncate(n.saturating_sub(c) * k);
            }
            9 => {
                let c = if s.bool() { left } else { s.size(left) };
                s.note(|| format!("push {} times, capacity {}", c, cap));
                let calls = alloc::calls();
                for _ in 0..c {
                    v.push_one(x);
                }
                kept(&v, "push", alloc::calls() - calls, bcap);
                for _ in 0..c {
                    mpush(&mut m, k, x);
                }
                filled |= c == left && c > 0;
                s.label("growth");
            }
            10 => {
                let c = n + if s.bool() { left } else { s.size(left) };
                s.note(|| format!("resize({}), capacity {}", c, cap));
                let calls = alloc::calls();
                v.grow(c as u64, x);
                kept(&v, "resize", alloc::calls() - calls, bcap);
                for _ in n..c {
                    mpush(&mut m, k, x);
                }
                filled |= c == n + left && c > n;
                s.label("growth");
            }
            11 => {
                let c = nb + if s.bool() { bcap - nb } else { s.size(bcap - nb) };
                let x = s.bits(B::BITS);
                s.note(|| format!("block_resize({}), capacity {} blocks", c, bcap));
                let calls = alloc::calls();
                v.block_grow(c, x);
                kept(&v, "block_resize", alloc::calls() - calls, bcap);
                m.resize(nb * B::BITS, false);
                for _ in nb..c {
                    mpush(&mut m, B::BITS, x);
                }
                m.truncate(c * B::BITS / k * k);
                filled |= c == bcap && c > nb;
                s.label("growth");
            }
            12 => {
                s.note(|| "clear()".into());
                let calls = alloc::calls();
                v.clear_all();
                kept(&v, "clear", alloc::calls() - calls, bcap);
                m.clear();
            }
            13 => {
                s.note(|| "clone()".into());
                v = v.clone();
            }
            _ => {
                let c = s.size(20);
                s.note(|| format!("push {} times", c));
                for _ in 0..c {
                    v.push_one(x);
                    mpush(&mut m, k, x);
                }
            }
        }
        let _ = calls;
        filled |= extra(s, &mut v, &mut m);
        check_quick("after it", &v, &m, s);
        assert!(v.cap() as u128 * k as u128 <= v.block_cap() as u128 * B::BITS as u128, "capacity {} of width {} in {} blocks", v.cap(), k, v.block_cap());
    }
    s.nontrivial_if(reserved >= 2 && filled);
    check_reads("at the end", &v, &m, s);
}

/// Reservations of up to 2^32 bits on a small vector. The memory is hardly touched.
fn large<B: Blk, V: Vect<B>>(s: &mut Src, k: usize) {
    s.label("large reservations");
    let most = 1u64 << if cfg!(target_pointer_width = "64") { 32 } else { 28 };
    let amount = |s: &mut Src, unit: usize| {
        let bits = match s.idx(3) {
            0 => s.big(most),
            1 => (1 << s.brange(18, 31)).min(most / 2) + s.below(1000) - 500,
            _ => s.big(1 << 24),
        };
        bits / unit as u64
    };
    let b = B::BITS as u64;
    let blocks = s.bool();
    let n = if s.bool() { s.size(500) as u64 } else { amount(s, if blocks { B::BITS } else { k }) };
    s.note(|| format!("with capacity for {} {} of width {}, {}", n, if blocks { "blocks" } else { "elements" }, k, B::NAME));
    let mut v = if blocks { V::with_blocks(k, n as usize) } else { V::with_cap(k, n) };
    if blocks {
        assert!(v.block_cap() as u64 >= n, "block_with_capacity({}): the capacity is {} blocks", n, v.block_cap());
    } else {
        assert!(v.cap() >= n, "with_capacity({}): the capacity is {}", n, v.cap());
    }
    let mut m: Vec<bool> = vec![];
    for step in 0..6 {
        if step > 0 && !s.more(4, 5) {
            break;
        }
        let c = s.size(3 * B::BITS / k + 3);
        let x = if V::INT { s.bits(k) & low(k) } else { s.below(2) };
        let (calls, room) = (alloc::calls(), v.cap() - (m.len() / k) as u64 >= c as u64);
        for _ in 0..c {
            v.push_one(x);
        }
        assert!(!room || alloc::calls() == calls, "pushing within the capacity calls the allocator");
        for _ in 0..c {
            mpush(&mut m, k, x);
        }
        let len = (m.len() / k) as u64;
        let nb = nblocks::<B>(m.len());
        let (cap, bcap) = (v.cap(), v.block_cap());
        let left = (bcap as u64 * b / k as u64) - len;
        let (block, exact) = (s.bool(), s.bool());
        let a = match s.idx(3) {
            0 if block => (bcap - nb) as u64 + s.below(3),
            0 => left + s.below(3),
            _ => amount(s, if block { B::BITS } else { k }),
        };
        s.note(|| format!("{}reserve{}({}) with length {}, capacity {}",
            if block { "block_" } else { "" }, if exact { "_exact" } else { "" }, a, len, cap));
        let calls = alloc::calls();
        match (block, exact) {
            (false, false) => v.res(a),
            (false, true) => v.res_exact(a),
            (true, false) => v.block_res(a as usize),
            (true, true) => v.block_res_exact(a as usize),
        }
        let calls = alloc::calls() - calls;
        let enough = if block {
            assert!(v.block_cap() as u64 >= nb as u64 + a, "reserving {} blocks on {}: the capacity is {} blocks", a, nb, v.block_cap());
            bcap as u64 >= nb as u64 + a
        } else {
            assert!(v.cap() >= len + a, "reserving {} on {}: the capacity is {} (was {})", a, len, v.cap(), cap);
            left >= a
        };
        assert!(v.cap() as u128 * k as u128 <= v.block_cap() as u128 * b as u128, "capacity {} of width {} in {} blocks", v.cap(), k, v.block_cap());
        assert!(!(exact && enough) || calls == 0 && v.block_cap() == bcap, "exact reservation of {} reallocates although the capacity suffices", a);
        check_quick("after it", &v, &m, s);
        if s.prob(1, 8) {
            s.note(|| "shrink_to_fit()".into());
            v.shrink();
            assert!(v.block_cap() == nb, "shrink_to_fit leaves a capacity of {} blocks for {}", v.block_cap(), nb);
        }
    }
    check_reads("at the end", &v, &m, s);
    let bcap = v.block_cap();
    if bcap as u64 * b <= 1 << 27 && s.rare(4) {
        s.note(|| format!("block_resize({}), the capacity, and back", bcap));
        let calls = alloc::calls();
        v.block_grow(bcap, 0);
        kept(&v, "block_resize", alloc::calls() - calls, bcap);
        v.trunc((m.len() / k) as u64);
        kept(&v, "truncate", alloc::calls() - calls, bcap);
        check_reads("after it", &v, &m, s);
    }
    s.nontrivial();
}

fn kept<B: Blk, V: Vect<B>>(v: &V, what: &str, calls: usize, bcap: usize) {
    assert!(calls == 0, "{} calls the allocator {} times, with a capacity of {} blocks", what, calls, bcap);
    assert!(v.block_cap() == bcap, "{} changes the capacity from {} to {} blocks", what, bcap, v.block_cap());
}

fn small_states() {
    fn go<B: Blk, V: Vect<B>>(k: usize) {
        for cap in 0..6 {
            for n in 0..(4 * B::BITS / k) {
                for a in [0, 1, 2, B::BITS / k, B::BITS / k + 1, 3 * B::BITS / k, 10 * B::BITS] {
                    for exact in [false, true] {
                        let mut v = V::with_blocks(k, cap);
                        for i in 0..n {
                            v.push_one(i as u64 & low(k));
                        }
                        let bcap = v.block_cap();
                        let enough = bcap * B::BITS / k >= n + a;
                        let c = alloc::calls();
                        if exact {
                            v.res_exact(a as u64)
                        } else {
                            v.res(a as u64)
                        }
                        let c = alloc::calls() - c;
                        assert!(v.cap() >= (n + a) as u64, "reserving {} on {} of width {}: the capacity is {}", a, n, k, v.cap());
                        assert!(!(exact && enough) || c == 0, "exact reservation reallocates");
                        let c = alloc::calls();
                        for _ in 0..a {
                            v.push_one(0);
                        }
                        assert!(alloc::calls() == c, "growing by the {} reserved on {} reallocates", a, n);
                    }
                }
            }
        }
    }
    fn both<B: Blk>() {
        go::<B, BitVector<B>>(1);
        for k in [1, 3, B::BITS - 1, B::BITS] {
            go::<B, IntVector<B>>(k);
        }
    }
    both::<u8>();
    both::<u32>();
    both::<u64>();
}
