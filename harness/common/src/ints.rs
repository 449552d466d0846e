//! The primitive integer types, chosen at run time.

use std::io::Result;
use succinct::stream::{BitRead, BitWrite};

pub const TYPES: [(&str, usize, bool); 12] = [
    ("u8", 8, false),
    ("u16", 16, false),
    ("u32", 32, false),
    ("u64", 64, false),
    ("usize", usize::BITS as usize, false),
    ("i8", 8, true),
    ("i16", 16, true),
    ("i32", 32, true),
    ("i64", 64, true),
    ("isize", usize::BITS as usize, true),
    ("u128", 128, false),
    ("i128", 128, true),
];

macro_rules! by_type {
    ($t:expr, $f:ident) => {
        match $t {
            0 => $f!(u8),
            1 => $f!(u16),
            2 => $f!(u32),
            3 => $f!(u64),
            4 => $f!(usize),
            5 => $f!(i8),
            6 => $f!(i16),
            7 => $f!(i32),
            8 => $f!(i64),
            9 => $f!(isize),
            10 => $f!(u128),
            _ => $f!(i128),
        }
    };
}

/// Writes the integer of type number `t` with the low bits of `v`.
pub fn write_int<W: BitWrite>(w: &mut W, t: usize, be: bool, k: usize, v: u128) -> Result<()> {
    macro_rules! go {
        ($t:ty) => {
            if be {
                w.write_int_be::<$t>(k, v as $t)
            } else {
                w.write_int::<$t>(k, v as $t)
            }
        };
    }
    by_type!(t, go)
}

/// Reads an integer of type number `t`, sign- or zero-extended.
pub fn read_int<R: BitRead>(r: &mut R, t: usize, be: bool, k: usize) -> Result<Option<i128>> {
    macro_rules! go {
        ($t:ty) => {
            if be {
                r.read_int_be::<$t>(k).map(|o| o.map(|x| x as i128))
            } else {
                r.read_int::<$t>(k).map(|o| o.map(|x| x as i128))
            }
        };
    }
    by_type!(t, go)
}

/// The bits written for the low `k` bits of `v`.
pub fn int_bits(be: bool, k: usize, v: u128) -> Vec<bool> {
    let mut b: Vec<bool> = (0..k).map(|i| v >> i & 1 == 1).collect();
    if be {
        b.reverse();
    }
    b
}

/// The integer of type number `t` that `bits`, read in this order, denote.
pub fn bits_int(t: usize, be: bool, bits: &[bool]) -> i128 {
    let mut v: u128 = 0;
    let n = bits.len();
    for i in 0..n {
        v |= (bits[if be { n - 1 - i } else { i }] as u128) << i;
    }
    macro_rules! go {
        ($t:ty) => {
            v as $t as i128
        };
    }
    by_type!(t, go)
}
