//! Models, generators and user-defined stores shared by the checks.

pub mod block;
pub mod check;
pub mod codes;
pub mod gen;
pub mod io;
pub mod ints;
pub mod store;

pub use block::Own;
pub use check::*;
pub use gen::*;
pub use store::*;

use succinct::storage::BlockType;

/// Block types, with conversions to and from `u64`.
pub trait Blk: BlockType + succinct::BitVec<Block = Self> + succinct::BitVecMut + std::hash::Hash + std::fmt::Debug + std::fmt::Binary + 'static {
    const BITS: usize;
    const NAME: &'static str;
    fn to(self) -> u64;
    /// Keeps the low bits.
    fn of(x: u64) -> Self;
}

macro_rules! blk {
    ($($t:ident)+) => { $(
        impl Blk for $t {
            const BITS: usize = 8 * std::mem::size_of::<$t>();
            const NAME: &'static str = stringify!($t);
            #[inline]
            fn to(self) -> u64 { self as u64 }
            #[inline]
            fn of(x: u64) -> Self { x as $t }
        }
    )+ }
}

blk!(u8 u16 u32 u64 usize);

/// Calls `f::<Block>(args)` for a block type chosen by the source.
#[macro_export]
macro_rules! with_block {
    ($s:expr, $f:ident ( $($a:expr),* )) => {
        match $s.idx(5) {
            0 => $f::<u8>($($a),*),
            1 => $f::<u16>($($a),*),
            2 => $f::<u32>($($a),*),
            3 => $f::<u64>($($a),*),
            _ => $f::<usize>($($a),*),
        }
    };
}

/// As `with_block`, rarely with a user-defined block type.
#[macro_export]
macro_rules! with_any_block {
    ($s:expr, $f:ident ( $($a:expr),* )) => {
        if $s.prob(1, 12) {
            $f::<$crate::Own>($($a),*)
        } else {
            $crate::with_block!($s, $f($($a),*))
        }
    };
}

#[inline]
pub fn low(n: usize) -> u64 {
    if n >= 64 {
        u64::MAX
    } else {
        (1u64 << n) - 1
    }
}

/// `count` bits of the model from `start`, little-endian.
#[inline]
pub fn mget(m: &[bool], start: usize, count: usize) -> u64 {
    let mut r = 0;
    for i in 0..count {
        r |= (m[start + i] as u64) << i;
    }
    r
}

pub fn mset(m: &mut [bool], start: usize, count: usize, v: u64) {
    for i in 0..count {
        m[start + i] = v >> i & 1 == 1;
    }
}

/// Block `i` of the model, zero-extended.
pub fn mblock<B: Blk>(m: &[bool], i: usize) -> u64 {
    let a = i * B::BITS;
    mget(m, a, B::BITS.min(m.len() - a))
}

pub fn nblocks<B: Blk>(len: usize) -> usize {
    len / B::BITS + (len % B::BITS != 0) as usize
}

pub fn mpush(m: &mut Vec<bool>, count: usize, v: u64) {
    for i in 0..count {
        m.push(v >> i & 1 == 1);
    }
}

pub fn show(m: &[bool]) -> String {
    let s: String = m.iter().take(200).map(|&b| if b { '1' } else { '0' }).collect();
    if m.len() > 200 {
        format!("{}...({} bits)", s, m.len())
    } else {
        s
    }
}
