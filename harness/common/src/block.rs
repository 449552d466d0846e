//! A user-defined block type: 32 bits, everything optional left at its default.

use crate::Blk;
use byteorder::{ByteOrder, ReadBytesExt, WriteBytesExt};
use num_traits::{Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, Num, NumCast, One, PrimInt, Saturating, ToPrimitive, Zero};
use std::cell::Cell;
use std::fmt;
use std::io::{self, Read, Write};
use std::ops::*;
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::storage::BlockType;
use succinct::{BitVec, BitVecMut, SpaceUsage};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Own(pub u32);

impl fmt::Debug for Own {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}

impl fmt::Binary for Own {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Binary::fmt(&self.0, f)
    }
}

thread_local! {
    static TICKS: Cell<u64> = const { Cell::new(0) };
}

/// Operations on `Own` blocks by this thread so far.
pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}

#[inline]
fn tick() {
    TICKS.with(|t| t.set(t.get().wrapping_add(1)));
}

macro_rules! op {
    ($($t:ident $f:ident)+) => { $(
        impl $t for Own {
            type Output = Own;
            #[inline]
            fn $f(self, o: Own) -> Own {
                tick();
                Own($t::$f(self.0, o.0))
            }
        }
    )+ }
}
op!(Add add Sub sub Mul mul Div div Rem rem BitAnd bitand BitOr bitor BitXor bitxor);

impl Not for Own {
    type Output = Own;
    #[inline]
    fn not(self) -> Own {
        tick();
        Own(!self.0)
    }
}
impl Shl<usize> for Own {
    type Output = Own;
    #[inline]
    fn shl(self, n: usize) -> Own {
        tick();
        Own(self.0 << n)
    }
}
impl Shr<usize> for Own {
    type Output = Own;
    #[inline]
    fn shr(self, n: usize) -> Own {
        tick();
        Own(self.0 >> n)
    }
}
impl Zero for Own {
    fn zero() -> Own {
        tick();
        Own(0)
    }
    fn is_zero(&self) -> bool {
        tick();
        self.0 == 0
    }
}
impl One for Own {
    fn one() -> Own {
        tick();
        Own(1)
    }
}
impl Num for Own {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<Own, Self::FromStrRadixErr> {
        u32::from_str_radix(s, r).map(Own)
    }
}
impl Bounded for Own {
    fn min_value() -> Own {
        Own(0)
    }
    fn max_value() -> Own {
        tick();
        Own(u32::MAX)
    }
}
impl ToPrimitive for Own {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        tick();
        self.0.to_u64()
    }
}
impl NumCast for Own {
    fn from<T: ToPrimitive>(n: T) -> Option<Own> {
        n.to_u32().map(Own)
    }
}
impl Saturating for Own {
    fn saturating_add(self, o: Own) -> Own {
        Own(self.0.saturating_add(o.0))
    }
    fn saturating_sub(self, o: Own) -> Own {
        Own(self.0.saturating_sub(o.0))
    }
}
macro_rules! checked {
    ($($t:ident $f:ident)+) => { $(
        impl $t for Own {
            fn $f(&self, o: &Own) -> Option<Own> { self.0.$f(o.0).map(Own) }
        }
    )+ }
}
checked!(CheckedAdd checked_add CheckedSub checked_sub CheckedMul checked_mul CheckedDiv checked_div);

impl PrimInt for Own {
    fn count_ones(self) -> u32 {
        tick();
        self.0.count_ones()
    }
    fn count_zeros(self) -> u32 {
        self.0.count_zeros()
    }
    fn leading_zeros(self) -> u32 {
        self.0.leading_zeros()
    }
    fn trailing_zeros(self) -> u32 {
        self.0.trailing_zeros()
    }
    fn rotate_left(self, n: u32) -> Own {
        Own(self.0.rotate_left(n))
    }
    fn rotate_right(self, n: u32) -> Own {
        Own(self.0.rotate_right(n))
    }
    fn signed_shl(self, n: u32) -> Own {
        Own(((self.0 as i32) << n) as u32)
    }
    fn signed_shr(self, n: u32) -> Own {
        Own(((self.0 as i32) >> n) as u32)
    }
    fn unsigned_shl(self, n: u32) -> Own {
        Own(self.0 << n)
    }
    fn unsigned_shr(self, n: u32) -> Own {
        Own(self.0 >> n)
    }
    fn swap_bytes(self) -> Own {
        Own(self.0.swap_bytes())
    }
    fn from_be(x: Own) -> Own {
        Own(u32::from_be(x.0))
    }
    fn from_le(x: Own) -> Own {
        Own(u32::from_le(x.0))
    }
    fn to_be(self) -> Own {
        Own(self.0.to_be())
    }
    fn to_le(self) -> Own {
        Own(self.0.to_le())
    }
    fn pow(self, e: u32) -> Own {
        Own(self.0.pow(e))
    }
}

impl BitVec for Own {
    type Block = Own;
    fn bit_len(&self) -> u64 {
        32
    }
    fn get_bit(&self, i: u64) -> bool {
        tick();
        assert!(i < 32, "Own: out of bounds");
        self.0 >> i & 1 == 1
    }
}
impl BitVecMut for Own {
    fn set_bit(&mut self, i: u64, v: bool) {
        assert!(i < 32, "Own: out of bounds");
        self.0 = self.0 & !(1 << i) | (v as u32) << i;
    }
}
impl RankSupport for Own {
    type Over = bool;
    fn rank(&self, i: u64, v: bool) -> u64 {
        if v {
            self.rank1(i)
        } else {
            self.rank0(i)
        }
    }
    fn limit(&self) -> u64 {
        32
    }
}
impl BitRankSupport for Own {
    fn rank1(&self, i: u64) -> u64 {
        assert!(i < 32, "Own: out of bounds");
        (self.0 << (31 - i)).count_ones() as u64
    }
}
impl SpaceUsage for Own {
    fn is_stack_only() -> bool {
        true
    }
    fn heap_bytes(&self) -> usize {
        0
    }
}

impl BlockType for Own {
    fn read_block<R: Read, T: ByteOrder>(r: &mut R) -> io::Result<Own> {
        r.read_u32::<T>().map(Own)
    }
    fn write_block<W: Write, T: ByteOrder>(&self, w: &mut W) -> io::Result<()> {
        w.write_u32::<T>(self.0)
    }
}

impl Blk for Own {
    const BITS: usize = 32;
    const NAME: &'static str = "user block";
    #[inline]
    fn to(self) -> u64 {
        self.0 as u64
    }
    #[inline]
    fn of(x: u64) -> Self {
        Own(x as u32)
    }
}
