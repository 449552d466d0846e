//! C02: an integer vector holds exactly the k-bit integers of its history.

use common::*;
use engine::{Prop, Src};
use succinct::bit_vec::{BitSliceMut, BitVec, BitVecMut};
use succinct::int_vec::{IntVec, IntVecMut, IntVector};

pub const PROP: Prop = Prop {
    id: "C02",
    rule: "a history of up to 60 operations on one integer vector (any block type, any width, every \
           constructor and mutator) next to a list of bits holding the k-bit fields; after every \
           operation length, elements, blocks and bits are compared, at the end everything incl. \
           iteration, rendering and arbitrary-width reads. Non-trivial: at least 3 operations changed \
           the contents and some element straddled or filled a block",
    case,
    directed: &[("every width", every_width), ("every step between small states", every_step)],
};

struct V<B: Blk> {
    v: IntVector<B>,
    m: Vec<bool>,
    k: usize,
}

pub fn case(s: &mut Src) {
    with_any_block!(s, history(s))
}

fn history<B: Blk>(s: &mut Src) {
    let max = if s.thorough { 200_000 } else { 16_000 };
    let k = gen_width(s, B::BITS);
    let mut t: V<B> = construct(s, k, max);
    quick(&t, s, "new vector");
    let mut changes = 0;
    let mut straddled = false;
    let mut longest = t.m.len();
    let steps = if s.thorough { 120 } else { 60 };
    let w = s.swarm(&[7, 6, 6, 4, 4, 6, 5, 5, 4, 1, 3, 1, 1]);
    for _ in 0..steps {
        if !s.more(24, 25) {
            break;
        }
        let op = step(s, &w, &mut t, max);
        s.label(op);
        if op != "reserve" {
            changes += 1;
        }
        straddled |= t.m.len() >= B::BITS;
        longest = longest.max(t.m.len());
        quick(&t, s, op);
    }
    s.label_if(k == B::BITS, "block-sized elements");
    s.label_if(B::BITS % k != 0, "straddling elements");
    s.label_if(longest > 512, "over 512 bits");
    s.label_if(longest > 8192, "over 8192 bits");
    s.nontrivial_if(changes >= 3 && straddled);
    finish(&t, s);
}

fn elem<B: Blk>(t: &V<B>, i: usize) -> u64 {
    mget(&t.m, i * t.k, t.k)
}

fn quick<B: Blk>(t: &V<B>, s: &mut Src, what: &str) {
    let n = t.m.len() / t.k;
    let (l, e) = (t.v.len(), t.v.is_empty());
    assert!(l == n as u64, "{}: len is {}, expected {} (width {})", what, l, n, t.k);
    assert!(e == (n == 0), "{}: is_empty is {} for {} elements", what, e, n);
    assert!(t.v.element_bits() == t.k, "{}: element_bits is {}", what, t.v.element_bits());
    check_quick(what, &t.v, &t.m, s);
    let some: Vec<usize> = if n <= 40 {
        (0..n).collect()
    } else {
        (0..8).map(|_| gen_pos(s, n)).chain([0, n - 1]).collect()
    };
    for i in some {
        let (g, w) = (t.v.get(i as u64).to(), elem(t, i));
        assert!(g == w, "{}: get({}) is {:#x}, expected {:#x} (width {}, {} elements)", what, i, g, w, t.k, n);
    }
}

fn finish<B: Blk>(t: &V<B>, s: &mut Src) {
    let n = t.m.len() / t.k;
    let want: Vec<u64> = (0..n).map(|i| elem(t, i)).collect();
    for i in 0..n {
        let g = t.v.get(i as u64).to();
        assert!(g == want[i], "get({}) is {:#x}, expected {:#x} (width {})", i, g, want[i], t.k);
    }
    check_reads("as a bit vector", &t.v, &t.m, s);
    let it: Vec<u64> = t.v.iter().map(|x| x.to()).collect();
    assert!(it == want, "iteration gives {:?}, expected {:?}", it, want);
    let it: Vec<u64> = (&t.v).into_iter().rev().map(|x| x.to()).collect();
    assert!(it.iter().rev().eq(want.iter()), "reverse iteration differs");
    let mut text = format!("IntVector {{ element_bits: {}, elements: {{ ", t.k);
    for x in &want {
        text += &format!("{:?}, ", x);
    }
    text += "} }";
    let got = format!("{:?}", t.v);
    assert!(got == text, "rendered as {}, expected {}", got, text);
    assert!(t.v.is_block_sized() == (t.k == B::BITS), "is_block_sized");
    assert!(t.v.is_aligned() == (B::BITS % t.k == 0), "is_aligned");
    for _ in 0..12 {
        if let Some((off, w, i)) = gen_field::<B>(s, t.m.len()) {
            let g = t.v.get_random(off as u64, w, i as u64).to();
            let e = mget(&t.m, off + i * w, w);
            assert!(g == e, "get_random({}, {}, {}) is {:#x}, expected {:#x}", off, w, i, g, e);
        }
    }
}

/// Offset, width and index of a field inside `len` bits.
fn gen_field<B: Blk>(s: &mut Src, len: usize) -> Option<(usize, usize, usize)> {
    let w = gen_width(s, B::BITS);
    if w > len {
        return None;
    }
    let pos = if s.prob(1, 5) { len - w } else { s.size(len - w) };
    let i = s.size(pos / w);
    Some((pos - i * w, w, i))
}

fn fits<B: Blk>(blocks: usize, k: usize) -> usize {
    blocks * B::BITS / k * k
}

fn gen_long(s: &mut Src, max: usize) -> usize {
    let big = if s.thorough { 1 << 22 } else { 1 << 20 };
    gen_len_big(s, max, big, 4000)
}

fn construct<B: Blk>(s: &mut Src, k: usize, max: usize) -> V<B> {
    let (v, m) = match s.weighted(&[3, 2, 2, 4, 4, 3]) {
        0 => {
            s.note(|| format!("IntVector::<{}>::new({})", B::NAME, k));
            (IntVector::new(k), vec![])
        }
        1 => {
            let n = gen_long(s, max) / k;
            s.note(|| format!("IntVector::<{}>::with_capacity({}, {})", B::NAME, k, n));
            (IntVector::with_capacity(k, n as u64), vec![])
        }
        2 => {
            let n = gen_long(s, max) / B::BITS;
            s.note(|| format!("IntVector::<{}>::block_with_capacity({}, {})", B::NAME, k, n));
            (IntVector::block_with_capacity(k, n), vec![])
        }
        3 => {
            let n = gen_long(s, max) / k;
            let x = gen_val(s, k);
            s.note(|| format!("IntVector::<{}>::with_fill({}, {}, {:#x})", B::NAME, k, n, x));
            let mut m = vec![];
            for _ in 0..n {
                mpush(&mut m, k, x);
            }
            (IntVector::with_fill(k, n as u64, B::of(x)), m)
        }
        4 => {
            let n = gen_long(s, max) / B::BITS;
            let x = s.bits(B::BITS);
            s.note(|| format!("IntVector::<{}>::block_with_fill({}, {}, {:#x})", B::NAME, k, n, x));
            let mut m = vec![];
            for _ in 0..n {
                mpush(&mut m, B::BITS, x);
            }
            m.truncate(fits::<B>(n, k));
            (IntVector::block_with_fill(k, n, B::of(x)), m)
        }
        _ => {
            let n = gen_long(s, max) / k;
            let m = gen_bits(s, n * k);
            s.note(|| format!("IntVector::<{}>({}) of {} pushed elements, bits {}", B::NAME, k, n, show(&m)));
            let mut v = IntVector::new(k);
            for i in 0..n {
                v.push(B::of(mget(&m, i * k, k)));
            }
            (v, m)
        }
    };
    V { v, m, k }
}

fn step<B: Blk>(s: &mut Src, w: &[u32], t: &mut V<B>, max: usize) -> &'static str {
    let k = t.k;
    let n = t.m.len() / k;
    let nb = nblocks::<B>(t.m.len());
    match s.weighted(w) {
        0 => {
            if s.prob(1, 8) {
                let c = 1 + s.size(2000 / k);
                let x = s.word();
                s.note(|| format!("push {} elements made from {:#x}", c, x));
                for i in 0..c {
                    let e = x.rotate_left(i as u32) & low(k);
                    t.v.push(B::of(e));
                    mpush(&mut t.m, k, e);
                }
                return "push";
            }
            let c = 1 + s.size(8);
            for _ in 0..c {
                let x = gen_val(s, k);
                s.note(|| format!("push({:#x})", x));
                t.v.push(B::of(x));
                mpush(&mut t.m, k, x);
            }
            "push"
        }
        1 => {
            let c = 1 + s.size(8);
            s.note(|| format!("pop {} times", c));
            for _ in 0..c {
                let n = t.m.len() / k;
                let want = if n == 0 { None } else { Some(elem(t, n - 1)) };
                t.m.truncate(n.saturating_sub(1) * k);
                let got = t.v.pop().map(|x| x.to());
                assert!(got == want, "pop returned {:?}, expected {:?} (width {})", got, want, k);
            }
            "pop"
        }
        2 if n > 0 => {
            let i = gen_pos(s, n);
            let x = gen_val(s, k);
            s.note(|| format!("set({}, {:#x})", i, x));
            t.v.set(i as u64, B::of(x));
            mset(&mut t.m, i * k, k, x);
            "set"
        }
        3 => {
            if let Some((off, w, i)) = gen_field::<B>(s, t.m.len()) {
                let x = gen_val(s, w);
                s.note(|| format!("set_random({}, {}, {}, {:#x})", off, w, i, x));
                t.v.set_random(off as u64, w, i as u64, B::of(x));
                mset(&mut t.m, off + i * w, w, x);
            }
            "set_random"
        }
        2 | 4 => {
            write_some(&mut t.v, &mut t.m, s);
            "write as bit vector"
        }
        5 => {
            let c = new_len(s, n, max / k, 4);
            let x = gen_val(s, k);
            s.note(|| format!("resize({}, {:#x})", c, x));
            t.v.resize(c as u64, B::of(x));
            t.m.truncate(c * k);
            while t.m.len() < c * k {
                mpush(&mut t.m, k, x);
            }
            "resize"
        }
        6 => {
            let c = new_len(s, nb, max / B::BITS, 2);
            let x = s.bits(B::BITS);
            s.note(|| format!("block_resize({}, {:#x})", c, x));
            t.v.block_resize(c, B::of(x));
            t.m.resize(nb * B::BITS, false);
            for _ in nb..c {
                mpush(&mut t.m, B::BITS, x);
            }
            t.m.truncate(fits::<B>(c, k));
            "block_resize"
        }
        7 => {
            let c = new_len(s, n, max / k, 4);
            s.note(|| format!("truncate({})", c));
            t.v.truncate(c as u64);
            t.m.truncate(c * k);
            "truncate"
        }
        8 => {
            let c = new_len(s, nb, max / B::BITS, 2);
            s.note(|| format!("block_truncate({})", c));
            t.v.block_truncate(c);
            if c < nb {
                t.m.truncate(fits::<B>(c, k));
            }
            "block_truncate"
        }
        9 => {
            s.note(|| "clear()".into());
            t.v.clear();
            t.m.clear();
            "clear"
        }
        10 => {
            let c = gen_len(s, 3000) / k;
            s.note(|| format!("a reservation of {}", c));
            match s.idx(5) {
                0 => t.v.reserve(c as u64),
                1 => t.v.reserve_exact(c as u64),
                2 => t.v.block_reserve(c),
                3 => t.v.block_reserve_exact(c),
                _ => t.v.shrink_to_fit(),
            }
            "reserve"
        }
        11 => {
            let (a, c) = gen_span(s, t.m.len(), t.m.len());
            s.note(|| format!("write through a slice {}..{}", a, a + c));
            let mut sl = BitSliceMut::new(&mut t.v, a as u64..(a + c) as u64);
            for _ in 0..3 {
                let (p, c) = gen_span(s, c, B::BITS);
                let w = s.bits(B::BITS);
                sl.set_bits(p as u64, c, B::of(w));
                mset(&mut t.m, a + p, c, w);
            }
            "slice"
        }
        _ => {
            s.note(|| "replaced by its clone".into());
            let c = t.v.clone();
            t.v = c;
            "clone"
        }
    }
}

fn new_len(s: &mut Src, old: usize, max: usize, d: usize) -> usize {
    match s.idx(3) {
        0 => old + s.size(d),
        1 => old.saturating_sub(s.size(d)),
        _ => s.size((old + old / 2 + 4).min(max)),
    }
}

fn every_width() {
    fn go<B: Blk>() {
        for k in 1..=B::BITS {
            let x = |i: u64| i.wrapping_mul(0xD134_2543_DE82_EF95).wrapping_add(i << 60) & low(k);
            let n = 3 * B::BITS as u64 + 7;
            let mut v: IntVector<B> = IntVector::new(k);
            for i in 0..n {
                v.push(B::of(x(i)));
            }
            let w: IntVector<B> = IntVector::with_fill(k, n, B::of(x(5)));
            for i in 0..n {
                assert!(v.get(i).to() == x(i), "width {}: get({})", k, i);
                assert!(w.get(i).to() == x(5), "width {}: with_fill {}", k, i);
            }
            for i in 0..n {
                v.set(i, B::of(x(i + 1)));
            }
            for i in (0..n).rev() {
                assert!(v.pop() == Some(B::of(x(i + 1))), "width {}: pop {}", k, i);
                assert!(v.block_len() as u64 == (i * k as u64).div_ceil(B::BITS as u64));
            }
            assert!(v.pop().is_none());
        }
    }
    go::<u8>();
    go::<u16>();
    go::<u32>();
    go::<u64>();
    go::<usize>();
}

/// Every operation, once, on vectors of every width and of lengths up to a few
/// blocks, with every argument that leads to another such length.
fn every_step() {
    fn go<B: Blk>() {
        let bits = B::BITS;
        for k in 1..=bits {
            let mut lens: Vec<usize> = (0..=4).collect();
            for blocks in [1, 2, 3, 4, 5, 8, 9, 16, 17, k.min(33)] {
                let l = blocks * bits / k;
                lens.extend(l.saturating_sub(1)..=l + 1);
            }
            lens.sort();
            lens.dedup();
            lens.retain(|&l| l <= 300);
            let x = |p: usize, i: usize| match p {
                0 => low(k),
                _ => (i as u64 + 5).wrapping_mul(0xD134_2543_DE82_EF95) >> 5 & low(k),
            };
            let is = |v: &IntVector<B>, p: usize, n: usize, rest: u64, l: usize, what: &str| {
                let blocks = (l * k).div_ceil(bits);
                assert!(v.len() == l as u64, "{}: {} to {} elements of {} bits: len is {}", what, n, l, k, v.len());
                assert!(v.bit_len() == (l * k) as u64 && v.block_len() == blocks, "{}: {} to {} elements of {} bits: bit_len {}, block_len {}", what, n, l, k, v.bit_len(), v.block_len());
                for i in 0..l {
                    let want = if i < n { x(p, i) } else { rest };
                    let got = v.get(i as u64).to();
                    assert!(got == want, "{}: {} to {} elements of {} bits: element {} is {:#x}, expected {:#x}", what, n, l, k, i, got, want);
                }
                let spare = blocks * bits - l * k;
                assert!(blocks == 0 || spare == 0 || v.get_block(blocks - 1).to() >> (bits - spare) == 0, "{}: {} to {} elements of {} bits: spare bits are set", what, n, l, k);
            };
            for &n in &lens {
                let fill = x(1, n);
                let v: IntVector<B> = IntVector::with_fill(k, n as u64, B::of(fill));
                is(&v, 0, 0, fill, n, "with_fill");
                for p in 0..2 {
                    let mut v: IntVector<B> = IntVector::new(k);
                    (0..n).for_each(|i| v.push(B::of(x(p, i))));
                    is(&v, p, n, 0, n, "push");
                    for &l in &lens {
                        let mut w = v.clone();
                        w.resize(l as u64, B::of(fill));
                        is(&w, p, n.min(l), fill, l, "resize");
                        if l < n {
                            let mut w = v.clone();
                            w.truncate(l as u64);
                            is(&w, p, l, 0, l, "truncate");
                            w.push(B::of(fill));
                            is(&w, p, l, fill, l + 1, "truncate and push");
                            let mut w = v.clone();
                            w.set(l as u64, B::of(!fill & low(k)));
                            assert!(w.get(l as u64).to() == !fill & low(k), "set({}) of {} elements of {} bits", l, n, k);
                            w.set(l as u64, B::of(x(p, l)));
                            is(&w, p, n, 0, n, "set and set back");
                        }
                    }
                    if n > 0 {
                        let mut w = v.clone();
                        assert!(w.pop() == Some(B::of(x(p, n - 1))), "pop of {} elements of {} bits", n, k);
                        is(&w, p, n - 1, 0, n - 1, "pop");
                    }
                    for blocks in 0..=(n * k).div_ceil(bits) + 2 {
                        let have = (n * k).div_ceil(bits);
                        let after = (blocks * bits / k).min(if blocks > have { have * bits / k } else { n });
                        let mut w = v.clone();
                        w.block_resize(blocks, B::of(0));
                        is(&w, p, n.min(after), 0, blocks * bits / k, "block_resize");
                        let mut w = v.clone();
                        w.block_truncate(blocks);
                        if blocks < have {
                            is(&w, p, blocks * bits / k, 0, blocks * bits / k, "block_truncate");
                        } else {
                            is(&w, p, n, 0, n, "block_truncate");
                        }
                    }
                    assert!(v.iter().enumerate().all(|(i, e)| e.to() == x(p, i)), "iteration of {} elements of {} bits", n, k);
                    assert!(v.iter().rev().zip((0..n).rev()).all(|(e, i)| e.to() == x(p, i)), "iteration of {} elements of {} bits from the back", n, k);
                }
            }
        }
    }
    go::<u8>();
    go::<u16>();
    go::<u32>();
    go::<u64>();
    go::<usize>();
    go::<Own>();
}
