//! C08: broadword and word-level operations match their bitwise definitions.

use common::*;
use engine::{Prop, Src};
use succinct::broadword::{self, Broadword};
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};

pub const PROP: Prop = Prop {
    id: "C08",
    rule: "two random words (sparse, dense, runs, extreme bytes, constants of the code): count, every \
           rank and select index to 80 and a few up to the maximum, the byte comparisons in every \
           lane; rank and binary-search select of 8- to 64-bit words at every position; directed: all \
           pairs of bytes in all lanes, all 16-bit words. Non-trivial: a word with both bits set and \
           clear in several bytes",
    case,
    directed: &[("byte pairs", byte_pairs), ("small words", small_words)],
};

fn naive_select(x: u64, r: u64) -> Option<u64> {
    let mut n = 0;
    for i in 0..64 {
        if x >> i & 1 == 1 {
            if n == r {
                return Some(i);
            }
            n += 1;
        }
    }
    None
}

fn naive_count(x: u64) -> u64 {
    (0..64).map(|i| x >> i & 1).sum()
}

pub fn case(s: &mut Src) {
    let x = s.word();
    let y = if s.prob(1, 3) { x ^ 1u64 << s.below(64) } else { s.word() };
    s.note(|| format!("x = {:#018x}, y = {:#018x}", x, y));
    let bytes = (0..8).filter(|i| !matches!(x >> (8 * i) & 0xFF, 0 | 0xFF)).count();
    s.nontrivial_if(bytes >= 2);
    word(x);
    lanes(x, y);
    lanes(y, x);
    let mut rs: Vec<u64> = (0..80).collect();
    for _ in 0..6 {
        rs.push(s.big(u64::MAX));
    }
    let c = naive_count(x);
    rs.extend([c, c.wrapping_sub(1), c + 1, c + 64, c + 128, c + 256, c + (1 << 32), c | 1 << 63, u64::MAX]);
    for r in rs {
        select(x, r);
    }
    match s.idx(5) {
        0 => prim::<u8>(x),
        1 => prim::<u16>(x),
        2 => prim::<u32>(x),
        3 => prim::<u64>(x),
        _ => prim::<usize>(x),
    }
}

fn select(x: u64, r: u64) {
    let want = naive_select(x, r);
    let g = Broadword(x).select1(r);
    assert!(g == want, "Broadword({:#x}).select1({}) is {:?}, expected {:?}", x, r, g, want);
    if r as usize as u64 == r {
        let g = broadword::select1(r as usize, x).map(|i| i as u64);
        assert!(g == want, "broadword::select1({}, {:#x}) is {:?}, expected {:?}", r, x, g, want);
        let g = broadword::select1_raw(r as usize, x) as u64;
        assert!(g == want.unwrap_or(72), "select1_raw({}, {:#x}) is {}, expected {:?}", r, x, g, want);
    }
}

fn word(x: u64) {
    let g = broadword::count_ones(x) as u64;
    assert!(g == naive_count(x), "count_ones({:#x}) is {}, expected {}", x, g, naive_count(x));
    let b = Broadword(x);
    assert!(b.limit() == 64);
    let mut ones = 0;
    for i in 0..64 {
        ones += x >> i & 1;
        let g = (b.rank1(i), b.rank0(i), b.rank(i, true), b.rank(i, false));
        let w = (ones, i + 1 - ones, ones, i + 1 - ones);
        assert!(g == w, "Broadword({:#x}): ranks at {} are {:?}, expected {:?}", x, i, g, w);
    }
}

fn lanes(x: u64, y: u64) {
    let (mut u, mut i, mut z) = (0, 0, 0);
    for k in 0..8 {
        let (a, b) = ((x >> (8 * k)) as u8, (y >> (8 * k)) as u8);
        let h = 0x80u64 << (8 * k);
        u |= if a <= b { h } else { 0 };
        i |= if a as i8 <= b as i8 { h } else { 0 };
        z |= if a != 0 { h } else { 0 };
    }
    let g = broadword::u_le8(x, y);
    assert!(g == u, "u_le8({:#018x}, {:#018x}) is {:#018x}, expected {:#018x}", x, y, g, u);
    let g = broadword::le8(x, y);
    assert!(g == i, "le8({:#018x}, {:#018x}) is {:#018x}, expected {:#018x}", x, y, g, i);
    let g = broadword::u_nz8(x);
    assert!(g == z, "u_nz8({:#018x}) is {:#018x}, expected {:#018x}", x, g, z);
}

fn prim<B: Blk>(x: u64) {
    let x = x & low(B::BITS);
    let w = B::of(x);
    assert!(w.limit() == B::BITS as u64, "{}: limit is {}", B::NAME, w.limit());
    let sel = BinSearchSelect::new(w);
    let (mut ones, mut zeros) = (0, 0);
    for i in 0..B::BITS as u64 {
        let b = x >> i & 1 == 1;
        if b {
            let g = (sel.select1(ones), sel.select(ones, true));
            assert!(g == (Some(i), Some(i)), "{} {:#x}: select1({}) is {:?}, expected {}", B::NAME, x, ones, g, i);
            ones += 1;
        } else {
            let g = (sel.select0(zeros), sel.select(zeros, false));
            assert!(g == (Some(i), Some(i)), "{} {:#x}: select0({}) is {:?}, expected {}", B::NAME, x, zeros, g, i);
            zeros += 1;
        }
        let g = (w.rank1(i), w.rank0(i), w.rank(i, true), w.rank(i, false));
        assert!(
            g == (ones, zeros, ones, zeros),
            "{} {:#x}: ranks at {} are {:?}, expected {:?}",
            B::NAME, x, i, g, (ones, zeros)
        );
    }
    assert!(sel.select1(ones).is_none() && sel.select0(zeros).is_none(), "{} {:#x}: select past the end", B::NAME, x);
}

fn byte_pairs() {
    assert!(broadword::L8 == 0x0101_0101_0101_0101 && broadword::H8 == 0x8080_8080_8080_8080);
    for a in 0..256u64 {
        for b in 0..256u64 {
            for k in 0..8 {
                lanes(a << (8 * k), b << (8 * k));
                lanes(a << (8 * k) | !(0xFF << (8 * k)), b << (8 * k));
                lanes(a << (8 * k), b << (8 * k) | !(0xFF << (8 * k)));
            }
            lanes(a * broadword::L8, b * broadword::L8);
        }
    }
}

fn small_words() {
    for x in 0..1 << 16 {
        prim::<u16>(x);
        if x < 256 {
            prim::<u8>(x);
        }
    }
    for x in 0..1u64 << 12 {
        for k in 0..6 {
            let w = [x, x << 52, x << 26, !x, !(x << 52), x.wrapping_mul(0x0010_0100_1001_0010)][k];
            word(w);
            for r in 0..66 {
                select(w, r);
            }
        }
    }
    for a in 0..64 {
        for b in a..64 {
            for w in [1u64 << a | 1 << b, !(1u64 << a | 1 << b), low(a), !low(a), low(b) & !low(a)] {
                word(w);
                prim::<u64>(w);
                prim::<u32>(w);
                for r in (0..70).chain(120..140).chain(250..260) {
                    select(w, r);
                }
            }
        }
    }
}
