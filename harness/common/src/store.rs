//! User-defined bit vectors, each giving only part of the interface.

use crate::{low, mset, nblocks, Blk};
use std::marker::PhantomData;
use succinct::{BitVec, BitVecMut, BitVecPush};

/// Defines `get_bit` (and `set_bit`, `push_bit`, `pop_bit`) only.
#[derive(Clone, Debug, PartialEq)]
pub struct OnlyBits<B> {
    pub bits: Vec<bool>,
    p: PhantomData<B>,
}

impl<B: Blk> OnlyBits<B> {
    pub fn new(m: &[bool]) -> Self {
        OnlyBits { bits: m.to_vec(), p: PhantomData }
    }
}

impl<B: Blk> BitVec for OnlyBits<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.bits.len() as u64
    }
    fn get_bit(&self, i: u64) -> bool {
        assert!(i < self.bits.len() as u64, "OnlyBits: out of bounds");
        self.bits[i as usize]
    }
}

impl<B: Blk> BitVecMut for OnlyBits<B> {
    fn set_bit(&mut self, i: u64, v: bool) {
        assert!(i < self.bits.len() as u64, "OnlyBits: out of bounds");
        self.bits[i as usize] = v;
    }
}

impl<B: Blk> BitVecPush for OnlyBits<B> {
    fn push_bit(&mut self, v: bool) {
        self.bits.push(v)
    }
    fn pop_bit(&mut self) -> Option<bool> {
        self.bits.pop()
    }
}

/// Defines `get_block` and `set_block` (and pushes) only. The last block's
/// bits beyond the length are garbage, which `set_block` leaves alone.
#[derive(Clone, Debug, PartialEq)]
pub struct OnlyBlocks<B> {
    pub blocks: Vec<B>,
    pub len: u64,
    pub junk: u64,
}

impl<B: Blk> OnlyBlocks<B> {
    pub fn new(m: &[bool], junk: u64) -> Self {
        let nb = nblocks::<B>(m.len());
        let mut bits = m.to_vec();
        for i in m.len()..nb * B::BITS {
            bits.push(junk >> (i % B::BITS) & 1 == 1);
        }
        let blocks = (0..nb).map(|i| B::of(crate::mget(&bits, i * B::BITS, B::BITS))).collect();
        OnlyBlocks { blocks, len: m.len() as u64, junk }
    }

    fn inside(&self, i: usize) -> u64 {
        low(B::BITS.min(self.len as usize - i * B::BITS))
    }

    /// The junk bits beyond the end are still what they were.
    pub fn check_junk(&self) {
        if let Some(last) = self.blocks.last() {
            let out = low(B::BITS) & !self.inside(self.blocks.len() - 1);
            assert!(last.to() & out == self.junk & out, "OnlyBlocks: bits beyond the end changed");
        }
    }
}

impl<B: Blk> BitVec for OnlyBlocks<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.len
    }
    fn get_block(&self, i: usize) -> B {
        self.blocks[i]
    }
}

impl<B: Blk> BitVecMut for OnlyBlocks<B> {
    fn set_block(&mut self, i: usize, v: B) {
        let k = self.inside(i);
        self.blocks[i] = B::of(v.to() & k | self.blocks[i].to() & !k);
    }
}

impl<B: Blk> BitVecPush for OnlyBlocks<B> {
    fn push_bit(&mut self, v: bool) {
        if self.len as usize == self.blocks.len() * B::BITS {
            self.blocks.push(B::of(self.junk));
        }
        let (i, o) = (self.len as usize / B::BITS, self.len as usize % B::BITS);
        let b = self.blocks[i].to() & !(1 << o) | (v as u64) << o;
        self.blocks[i] = B::of(b);
        self.len += 1;
    }
    fn pop_bit(&mut self) -> Option<bool> {
        if self.len == 0 {
            return None;
        }
        self.len -= 1;
        let (i, o) = (self.len as usize / B::BITS, self.len as usize % B::BITS);
        let v = self.blocks[i].to() >> o & 1 == 1;
        if o == 0 {
            self.blocks.pop();
        } else {
            let b = self.blocks[i].to() & !(1 << o) | (self.junk & 1 << o);
            self.blocks[i] = B::of(b);
        }
        Some(v)
    }
}

/// Defines bits and blocks; its `block_len` is the default.
#[derive(Clone, Debug, PartialEq)]
pub struct Both<B> {
    pub bits: Vec<bool>,
    p: PhantomData<B>,
}

impl<B: Blk> Both<B> {
    pub fn new(m: &[bool]) -> Self {
        Both { bits: m.to_vec(), p: PhantomData }
    }
}

impl<B: Blk> BitVec for Both<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.bits.len() as u64
    }
    fn get_bit(&self, i: u64) -> bool {
        assert!(i < self.bits.len() as u64, "Both: out of bounds");
        self.bits[i as usize]
    }
    fn get_block(&self, i: usize) -> B {
        assert!(i < nblocks::<B>(self.bits.len()), "Both: out of bounds");
        B::of(crate::mblock::<B>(&self.bits, i))
    }
}

impl<B: Blk> BitVecMut for Both<B> {
    fn set_bit(&mut self, i: u64, v: bool) {
        assert!(i < self.bits.len() as u64, "Both: out of bounds");
        self.bits[i as usize] = v;
    }
    fn set_block(&mut self, i: usize, v: B) {
        assert!(i < nblocks::<B>(self.bits.len()), "Both: out of bounds");
        let a = i * B::BITS;
        let n = self.bits.len();
        mset(&mut self.bits, a, B::BITS.min(n - a), v.to());
    }
}
