//! C20: block arithmetic and bit addressing follow their definitions.

use common::*;
use engine::{Prop, Src};
use succinct::storage::{Address, BlockType};

pub const PROP: Prop = Prop {
    id: "C20",
    rule: "for one block type, arguments over the whole domain biased to boundaries (powers of two, \
           multiples of the block size, the maximum), all arithmetic, masking, logarithm, bit-field and \
           addressing functions against their definitions in 128-bit arithmetic; 8-bit blocks and small \
           arguments exhaustively once. Non-trivial: at least one argument above the square root of its \
           maximum and not the maximum itself",
    case,
    directed: &[("exhaustive", exhaustive)],
};

pub fn case(s: &mut Src) {
    with_any_block!(s, block(s))
}

fn block<B: Blk>(s: &mut Src) {
    let max = low(B::BITS);
    let i = s.big(u64::MAX);
    let x = if s.bool() { s.big(max) } else { s.bits(B::BITS) };
    let d = 1 + s.big(max - 1);
    let y = s.bits(B::BITS);
    let (start, len) = gen_span(s, B::BITS, B::BITS);
    let bi = s.big((u64::MAX >> B::BITS.trailing_zeros()).min(usize::MAX as u64)) as usize;
    let off = s.idx(B::BITS);
    s.note(|| format!("{}: index {}, x {:#x}, divisor {:#x}, y {:#x}, span {} + {}, block {}, offset {}",
        B::NAME, i, x, d, y, start, len, bi, off));
    s.nontrivial_if((i >> 32 != 0 && i != u64::MAX) || (x >> (B::BITS / 2) != 0 && x != max));
    s.label(B::NAME);
    s.label_if(i > u64::MAX - 64, "index near the maximum");
    s.label_if(x > max - B::BITS as u64, "value near the maximum");
    index::<B>(i);
    index::<B>(s.big(100_000));
    address::<B>(bi, off);
    let j = match s.idx(3) {
        0 => i,
        1 => i.saturating_add(s.below(300)).saturating_sub(150),
        _ => s.big(u64::MAX),
    };
    compared::<B>(i, j);
    compared::<B>(j, i);
    lg::<B>(x);
    ceil_div::<B>(x, d);
    ceil_div::<B>(x, 1 + s.size(B::BITS.min(100)) as u64);
    masks::<B>(len, off);
    field::<B>(x, start, len, y);
}

fn index<B: Blk>(i: u64) {
    let b = B::BITS as u128;
    let w = i as u128;
    let t = |f: &str| format!("{}::{}({})", B::NAME, f, i);
    let (div, rem, up) = (w / b, w % b, (w + b - 1) / b);
    let fits = |x: u128| if x <= usize::MAX as u128 { Some(x as usize) } else { None };
    let r = B::checked_div_nbits(i);
    assert!(r == fits(div), "{} is {:?}, expected {:?}", t("checked_div_nbits"), r, fits(div));
    let r = B::checked_ceil_div_nbits(i);
    assert!(r == fits(up), "{} is {:?}, expected {:?}", t("checked_ceil_div_nbits"), r, fits(up));
    if let Some(div) = fits(div) {
        let r = B::div_nbits(i);
        assert!(r == div, "{} is {}, expected {}", t("div_nbits"), r, div);
    }
    if let Some(up) = fits(up) {
        let r = B::ceil_div_nbits(i);
        assert!(r == up, "{} is {}, expected {}", t("ceil_div_nbits"), r, up);
    }
    let r = B::mod_nbits(i);
    assert!(r as u128 == rem, "{} is {}, expected {}", t("mod_nbits"), r, rem);
    let r = B::last_block_bits(i);
    let want = if rem == 0 { b } else { rem };
    assert!(r as u128 == want, "{} is {}, expected {}", t("last_block_bits"), r, want);
    if fits(div).is_some() {
        let a = Address::new::<B>(i);
        assert!(a.block_index as u128 == div && a.bit_offset as u128 == rem, "{} is {:?}", t("Address::new"), a);
        let r = a.bit_index::<B>();
        assert!(r == i, "Address::bit_index of {:?} is {}, expected {}", a, r, i);
    } else {
        engine::must_panic(|| t("Address::new"), || Address::new::<B>(i));
    }
}

fn address<B: Blk>(block_index: usize, bit_offset: usize) {
    let want = block_index as u128 * B::BITS as u128;
    let r = B::mul_nbits(block_index);
    assert!(r as u128 == want, "{}::mul_nbits({}) is {}, expected {}", B::NAME, block_index, r, want);
    let a = Address { block_index, bit_offset };
    let r = a.bit_index::<B>();
    assert!(r as u128 == want + bit_offset as u128, "bit_index of {:?} for {} is {}", a, B::NAME, r);
    let back = Address::new::<B>(r);
    assert!(back == a, "{:?} becomes {:?} ({})", a, back, B::NAME);
}

/// Addresses compare as the bit indices they stand for.
fn compared<B: Blk>(i: u64, j: u64) {
    if (i / B::BITS as u64).max(j / B::BITS as u64) > usize::MAX as u64 {
        return;
    }
    let (a, b) = (Address::new::<B>(i), Address::new::<B>(j));
    assert!(a.cmp(&b) == i.cmp(&j) && a.partial_cmp(&b) == Some(i.cmp(&j)), "{:?} against {:?} ({}), for {} against {}", a, b, B::NAME, i, j);
    assert!((a == b) == (i == j) && (a != b) == (i != j), "{:?} == {:?} ({}), for {} and {}", a, b, B::NAME, i, j);
    if i == j {
        assert!(hash(&a) == hash(&b), "equal addresses hash differently");
    }
}

fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn lg<B: Blk>(x: u64) {
    let v = B::of(x);
    let ceil = (0..).find(|&n| 1u128 << n >= x as u128).unwrap();
    let r = v.ceil_lg();
    assert!(r == ceil, "ceil_lg of {:#x} as {} is {}, expected {}", x, B::NAME, r, ceil);
    if x > 0 {
        let floor = (0..64).rev().find(|&n| 1u128 << n <= x as u128).unwrap();
        let r = v.floor_lg();
        assert!(r == floor, "floor_lg of {:#x} as {} is {}, expected {}", x, B::NAME, r, floor);
    }
}

fn ceil_div<B: Blk>(x: u64, d: u64) {
    let want = (x as u128 + d as u128 - 1) / d as u128;
    let r = B::of(x).ceil_div(B::of(d)).to();
    assert!(r as u128 == want, "{:#x}.ceil_div({:#x}) as {} is {:#x}, expected {:#x}", x, d, B::NAME, r, want);
}

fn masks<B: Blk>(k: usize, n: usize) {
    let bits = B::BITS;
    assert!(B::nbits() == bits && 1usize << B::lg_nbits() == bits, "{}: nbits, lg_nbits", B::NAME);
    let want = ((1u128 << k) - 1) as u64;
    let r = B::low_mask(k).to();
    assert!(r == want, "{}::low_mask({}) is {:#x}, expected {:#x}", B::NAME, k, r, want);
    let r = B::nth_mask(n).to();
    assert!(r == 1 << n, "{}::nth_mask({}) is {:#x}", B::NAME, n, r);
    let m = bits as u64 - 1;
    let all = [
        B::lg_nbits_mask::<u8>() as u64,
        B::lg_nbits_mask::<u16>() as u64,
        B::lg_nbits_mask::<u32>() as u64,
        B::lg_nbits_mask::<u64>(),
        B::lg_nbits_mask::<usize>() as u64,
    ];
    assert!(all.iter().all(|&x| x == m), "{}::lg_nbits_mask gives {:?}, expected {}", B::NAME, all, m);
}

fn field<B: Blk>(x: u64, start: usize, len: usize, y: u64) {
    let v = B::of(x);
    let t = |f: &str| format!("{} of {:#x} ({}), span {} + {}, value {:#x}", f, x, B::NAME, start, len, y);
    let mask = ((1u128 << len) - 1) as u64;
    let want = if len == 0 { 0 } else { x >> start & mask };
    let r = BlockType::get_bits(v, start, len).to();
    assert!(r == want, "{} is {:#x}, expected {:#x}", t("get_bits"), r, want);
    let m = if len == 0 { 0 } else { mask << start };
    let want = x & !m | if len == 0 { 0 } else { y << start & m };
    let r = v.with_bits(start, len, B::of(y)).to();
    assert!(r == want, "{} is {:#x}, expected {:#x}", t("with_bits"), r, want);
    let i = start.min(B::BITS - 1);
    let r = BlockType::get_bit(v, i);
    assert!(r == (x >> i & 1 == 1), "{} is {}", t("get_bit"), r);
    for b in [false, true] {
        let r = v.with_bit(i, b).to();
        let want = x & !(1 << i) | (b as u64) << i;
        assert!(r == want, "{} {} is {:#x}, expected {:#x}", t("with_bit"), b, r, want);
    }
}

fn exhaustive() {
    for x in 0..=255u64 {
        lg::<u8>(x);
        for d in 1..=255 {
            ceil_div::<u8>(x, d);
        }
        for start in 0..=8 {
            for len in 0..=8 - start {
                for y in 0..=255 {
                    field::<u8>(x, start, len, y);
                }
            }
        }
    }
    for x in 0..=65_535u64 {
        lg::<u16>(x);
        for d in [1, 2, 3, 255, 256, 32_767, 32_768, 65_534, 65_535] {
            ceil_div::<u16>(x, d);
        }
    }
    fn each<B: Blk>() {
        for k in 0..=B::BITS {
            for n in 0..B::BITS {
                masks::<B>(k, n);
            }
        }
        for n in 0..64 {
            for d in 0..3 {
                let x = (1u64 << n).wrapping_add(d).wrapping_sub(1);
                index::<B>(x);
                index::<B>(!x);
                if x <= low(B::BITS) {
                    lg::<B>(x);
                    ceil_div::<B>(low(B::BITS), x.max(1));
                    ceil_div::<B>(x, low(B::BITS));
                }
            }
        }
        for i in 0..2000 {
            index::<B>(i);
            index::<B>(u64::MAX - i);
            address::<B>(i as usize, i as usize % B::BITS);
        }
        for start in 0..=B::BITS {
            for len in 0..=B::BITS - start {
                for (x, y) in [(0, !0), (!0, 0), (0x8000_4000_2000_1081, 0x5A5A_C3C3_0FF0_9669)] {
                    field::<B>(x & low(B::BITS), start, len, y & low(B::BITS));
                }
            }
        }
    }
    each::<u8>();
    each::<u16>();
    each::<u32>();
    each::<u64>();
    each::<usize>();
}
