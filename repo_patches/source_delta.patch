From 0c585f0594b894fbf60de92d4ec5004d34fecfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 01/25] fix: allow empty bit spans at the end of a bit vector

BitVec::get_bits and BitVecMut::set_bits fetched the block at the start of
the span even when the span is empty. At the end of a block-aligned (or
empty) bit vector there is no such block, so an in-bounds empty span
panicked.
---
 src/bit_vec/traits.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index cf62776..901c2e7 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -78,6 +78,9 @@ pub trait BitVec {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
 
+        // There might be no block at `start` if it is the end.
+        if count == 0 { return Self::Block::zero(); }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
@@ -160,6 +163,9 @@ pub trait BitVecMut: BitVec {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
 
+        // There might be no block at `start` if it is the end.
+        if count == 0 { return; }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
-- 
2.43.0


From d053ae4f1baf47243b7c6861a5be56167c92bd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 02/25] fix: support partial last blocks in bit slices

BitSlice and BitSliceMut implemented get_block and set_block as accesses to
a whole block's worth of bits, so the last block of a slice whose length is
not a multiple of the block size could not be read or written.
---
 src/bit_vec/bit_slice.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/bit_slice.rs b/src/bit_vec/bit_slice.rs
index 5f84118..5831199 100644
--- a/src/bit_vec/bit_slice.rs
+++ b/src/bit_vec/bit_slice.rs
@@ -1,3 +1,4 @@
+use std::cmp::min;
 use std::ops::{Range, RangeTo, RangeFrom, RangeFull};
 
 use bit_vec::traits::*;
@@ -108,7 +109,12 @@ impl<'a, Base: 'a + BitVec + ?Sized> BitVec for BitSlice<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        assert!(position < self.block_len(),
+                "BitSlice::get_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        // The last block might be partial:
+        let count = min(Self::Block::nbits() as u64, self.len - start);
+        self.get_bits(start, count as usize)
     }
 }
 
@@ -134,7 +140,12 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVec for BitSliceMut<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        assert!(position < self.block_len(),
+                "BitSliceMut::get_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        // The last block might be partial:
+        let count = min(Self::Block::nbits() as u64, self.len - start);
+        self.get_bits(start, count as usize)
     }
 }
 
@@ -153,8 +164,12 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVecMut for BitSliceMut<'a, Base> {
     }
 
     fn set_block(&mut self, position: usize, value: Self::Block) {
-        self.set_bits(Self::Block::mul_nbits(position),
-                      Self::Block::nbits(), value);
+        assert!(position < self.block_len(),
+                "BitSliceMut::set_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        // The last block might be partial:
+        let count = min(Self::Block::nbits() as u64, self.len - start);
+        self.set_bits(start, count as usize, value);
     }
 }
 
-- 
2.43.0


From 1eb3253421ad96bac1b43f87f1b70492828f1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 03/25] fix: JacobsonRank::new on bit vectors of length 0 and 1

The block sizes derived from lg n are zero for such vectors, which made the
construction divide by zero or ask for zero-width integers.
---
 src/rank/jacobson.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index cd525f6..1b93fb6 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -1,3 +1,5 @@
+use std::cmp::max;
+
 use num_traits::PrimInt;
 
 use bit_vec::BitVec;
@@ -26,12 +28,12 @@ impl<Store: BitVec> JacobsonRank<Store> {
         let lg2_n = lg_n * lg_n;
 
         let small_block_size  = Store::Block::nbits();
-        let small_per_large   = lg2_n.ceil_div(small_block_size);
+        let small_per_large   = max(1, lg2_n.ceil_div(small_block_size));
         let large_block_size  = small_block_size * small_per_large;
         let large_block_count = n / large_block_size as u64 + 1;
         let small_block_count = n / small_block_size as u64 + 1;
 
-        let large_meta_size   = (n + 1).ceil_lg();
+        let large_meta_size   = max(1, (n + 1).ceil_lg());
         let small_meta_size   = (large_block_size + 1).ceil_lg();
 
         let mut large_block_ranks =
-- 
2.43.0


From 471564a108c4f861d754bfb2bc737271d4fb2894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 04/25] fix: JacobsonRank::new ignores extra bits in the last
 block

BitVec::get_block may return bits beyond the length in the last block. They
were counted, which could exceed the width of the stored counts and panic.
---
 src/rank/jacobson.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index 1b93fb6..424b8a2 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -45,7 +45,9 @@ impl<Store: BitVec> JacobsonRank<Store> {
         let mut last_large_rank: u64 = 0;
         let mut small_block_index: usize = 0;
 
-        for i in 0 .. bits.block_len() {
+        let block_len = bits.block_len();
+
+        for i in 0 .. block_len {
             if small_block_index == 0 {
                 large_block_ranks.push(current_rank);
                 last_large_rank = current_rank;
@@ -54,7 +56,14 @@ impl<Store: BitVec> JacobsonRank<Store> {
             let excess_rank = current_rank - last_large_rank;
             small_block_ranks.push(excess_rank);
 
-            current_rank += bits.get_block(i).count_ones() as u64;
+            let mut block = bits.get_block(i);
+            if i + 1 == block_len {
+                // The last block may contain extra bits.
+                let extent = Store::Block::last_block_bits(n);
+                block = block & Store::Block::low_mask(extent);
+            }
+
+            current_rank += block.count_ones() as u64;
             small_block_index += 1;
 
             if small_block_index == small_per_large {
-- 
2.43.0


From d1d87f2d074d8b092df84e75f7bdf14ec82daf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 05/25] fix: Rank9::rank1 panics on every position beyond the
 limit

Positions beyond the length but inside the last block were answered, though
rank is documented to panic if the position is not below the limit.
---
 src/rank/rank9.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rank/rank9.rs b/src/rank/rank9.rs
index f30d225..b6398c4 100644
--- a/src/rank/rank9.rs
+++ b/src/rank/rank9.rs
@@ -131,6 +131,9 @@ impl<Store: BitVec<Block = u64>> Rank9<Store> {
 
 impl<Store: BitVec<Block = u64>> BitRankSupport for Rank9<Store> {
     fn rank1(&self, position: u64) -> u64 {
+        assert!(position < self.bit_len(),
+                "Rank9::rank1: out of bounds");
+
         let bb_index = (position / 512).to_usize()
                                        .expect("Rank9::rank1: index overflow");
         let word_index = (position / 64).to_usize()
-- 
2.43.0


From 0244648c1aaab0423374e797c40c9f6569d95694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 06/25] fix: select with the maximum index finds nothing
 instead of overflowing

---
 src/select/bin_search.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/select/bin_search.rs b/src/select/bin_search.rs
index 4734f37..6f40caa 100644
--- a/src/select/bin_search.rs
+++ b/src/select/bin_search.rs
@@ -53,7 +53,11 @@ macro_rules! impl_select_support_b {
         impl<Rank: BitRankSupport>
         $select_support for BinSearchSelect<Rank> {
             fn $select(&self, index: u64) -> Option<u64> {
-                binary_search_function(0, self.limit(), index + 1,
+                let count = match index.checked_add(1) {
+                    Some(count) => count,
+                    None        => return None,
+                };
+                binary_search_function(0, self.limit(), count,
                                        |i| self.$rank(i))
             }
         }
@@ -67,7 +71,11 @@ impl<Rank: RankSupport> SelectSupport for BinSearchSelect<Rank> {
     type Over = Rank::Over;
 
     fn select(&self, index: u64, value: Rank::Over) -> Option<u64> {
-        binary_search_function(0, self.limit(), index + 1,
+        let count = match index.checked_add(1) {
+            Some(count) => count,
+            None        => return None,
+        };
+        binary_search_function(0, self.limit(), count,
                                |i| self.rank(i, value))
     }
 }
-- 
2.43.0


From 4ab5242729f1d00e0496d864b5132d982a697c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 07/25] fix: le8 on bytes of opposite signs

---
 src/broadword.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index 00b56f7..84becd0 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -97,7 +97,7 @@ pub fn u_le8(x: u64, y: u64) -> u64 {
 
 /// Parallel ≤, treating a `u64` as a vector of 8 `i8`s.
 pub fn le8(x: u64, y: u64) -> u64 {
-    (((y | H8) - (x & !H8)) ^ x ^ y) & H8
+    ((((y | H8) - (x & !H8)) | (x ^ y)) ^ (y & !x)) & H8
 }
 
 /// Parallel >0, treating a `u64` as a vector of 8 `u8`s.
-- 
2.43.0


From 0eaa7b6df7c9c88c55f803863f915cfdf80fe24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 08/25] fix: Broadword select finds nothing for every index
 above 63

---
 src/broadword.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index 84becd0..17b8bb3 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -46,7 +46,13 @@ impl RankSupport for Broadword {
 
 impl Select1Support for Broadword {
     fn select1(&self, index: u64) -> Option<u64> {
-        select1(index as usize, self.0).map(|u| u as u64)
+        // Only 64 bits, so larger indices (which might not fit in a
+        // `usize`) find nothing.
+        if index < 64 {
+            select1(index as usize, self.0).map(|u| u as u64)
+        } else {
+            None
+        }
     }
 }
 
@@ -78,6 +84,9 @@ pub fn select1(r: usize, x: u64) -> Option<usize> {
 ///
 /// Uses the broadword algorithm from Vigna.
 pub fn select1_raw(r: usize, x: u64) -> usize {
+    // The byte-wise comparisons below only work for `r` below 128.
+    if r >= 64 { return 72; }
+
     let r = r as u64;
     let mut s = x - ((x & 0xAAAA_AAAA_AAAA_AAAA) >> 1);
     s = (s & 0x3333_3333_3333_3333) + ((s >> 2) & 0x3333_3333_3333_3333);
-- 
2.43.0


From 94019b73a9be1a12159619ca459b0cf161b9c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 09/25] fix: write_int_be of zero bits and of full-width signed
 integers

---
 src/stream/traits.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/stream/traits.rs b/src/stream/traits.rs
index 5f45753..074daaf 100644
--- a/src/stream/traits.rs
+++ b/src/stream/traits.rs
@@ -79,11 +79,8 @@ pub trait BitWrite {
     /// Writes the lower `nbits` of `value`, most-significant first.
     fn write_int_be<N: PrimInt>(&mut self, nbits: usize, value: N)
                                 -> Result<()> {
-        let mut mask = N::one() << nbits - 1;
-
-        for _ in 0 .. nbits {
-            try!(self.write_bit(value & mask != N::zero()));
-            mask = mask >> 1;
+        for i in (0 .. nbits).rev() {
+            try!(self.write_bit((value >> i) & N::one() != N::zero()));
         }
 
         Ok(())
-- 
2.43.0


From 45c50dcc3a13dde549b61b22789dce13f2eb7855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 10/25] fix: Fibonacci decoding of truncated or oversized
 codewords

---
 src/coding/fib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/coding/fib.rs b/src/coding/fib.rs
index e001101..bdc1bd7 100644
--- a/src/coding/fib.rs
+++ b/src/coding/fib.rs
@@ -72,6 +72,7 @@ impl UniversalCode for Fibonacci {
         let mut result  = 0;
         let mut fib = Fib::new();
         let mut previous = false;
+        let mut consumed = false;
 
         while let Some(bit) = try!(source.read_bit()) {
             if bit && previous {
@@ -79,17 +80,21 @@ impl UniversalCode for Fibonacci {
             }
 
             if bit {
-                result += fib.i;
+                result = match u64::checked_add(result, fib.i) {
+                    Some(result) => result,
+                    None         => return too_many_bits("Fibonacci::decode"),
+                };
             }
 
             try!(fib.next());
             previous = bit;
+            consumed = true;
         }
 
-        if result == 0 {
-            Ok(None)
-        } else {
+        if consumed {
             out_of_bits("Fibonacci::decode")
+        } else {
+            Ok(None)
         }
     }
 }
-- 
2.43.0


From 456da82b93c1efbcfcd905e553e8e375c9b8312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 11/25] fix: Lift0 rejects a code of zero when decoding

---
 src/coding/trans.rs    | 1 +
 src/internal/errors.rs | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/coding/trans.rs b/src/coding/trans.rs
index 6401f08..25852b1 100644
--- a/src/coding/trans.rs
+++ b/src/coding/trans.rs
@@ -19,6 +19,7 @@ impl<Code: UniversalCode> UniversalCode for Lift0<Code> {
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
         match self.0.decode(source) {
+            Ok(Some(0)) => invalid_code("Lift0::decode"),
             Ok(Some(n)) => Ok(Some(n - 1)),
             otherwise => otherwise,
         }
diff --git a/src/internal/errors.rs b/src/internal/errors.rs
index 012c3a9..9265440 100644
--- a/src/internal/errors.rs
+++ b/src/internal/errors.rs
@@ -10,3 +10,8 @@ pub fn too_many_bits<A>(who: &str) -> Result<A> {
     Err(Error::new(ErrorKind::InvalidData,
                    format!("{}: value too big for type", who)))
 }
+
+pub fn invalid_code<A>(who: &str) -> Result<A> {
+    Err(Error::new(ErrorKind::InvalidData,
+                   format!("{}: not the code of any value", who)))
+}
-- 
2.43.0


From 00a8f670b6d5587c1a8c1dc86b7d02e47c8672b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 12/25] fix: Omega decoding of groups that exceed 64 bits

---
 src/coding/elias.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index 3b78154..5352b3d 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -79,6 +79,10 @@ impl UniversalCode for Omega {
             if let Some(bit) = try!(source.read_bit()) {
                 if !bit { return Ok(Some(result)); }
 
+                if result > WORD_BITS as u64 - 1 {
+                    return too_many_bits("Omega::decode");
+                }
+
                 if let Some(next) =
                        try!(source.read_int_be::<u64>(result as usize)) {
                     result = next | (1 << result as u32)
-- 
2.43.0


From 4816262c29c232ebbcb9003157dfbdd2e5d6553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 13/25] fix: Comma decoding of numbers that exceed 64 bits

---
 src/coding/comma.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/coding/comma.rs b/src/coding/comma.rs
index c1c2552..8c5fecf 100644
--- a/src/coding/comma.rs
+++ b/src/coding/comma.rs
@@ -29,7 +29,7 @@ impl UniversalCode for Comma {
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
         let base = (1 << self.0) - 1;
-        let mut result = 0;
+        let mut result: u64 = 0;
         let mut consumed = false;
 
         loop {
@@ -37,7 +37,11 @@ impl UniversalCode for Comma {
                 if digit == base { return Ok(Some(result)) }
 
                 consumed = true;
-                result = result * base + digit;
+                result = match result.checked_mul(base)
+                                     .and_then(|r| r.checked_add(digit)) {
+                    Some(result) => result,
+                    None         => return too_many_bits("Comma::decode"),
+                };
             } else if consumed {
                 return out_of_bits("Comma::decode");
             } else {
-- 
2.43.0


From 67b5a0496fd9c835906ad59d21afe5c49ac7fcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 14/25] fix: Omega refuses to encode 0 instead of writing the
 code of 1

---
 src/coding/elias.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index 5352b3d..75acb3b 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -56,6 +56,8 @@ impl<Header: UniversalCode> UniversalCode for Elias<Header> {
 
 impl UniversalCode for Omega {
     fn encode<W: BitWrite>(&self, sink: &mut W, mut value: u64) -> Result<()> {
+        assert!(value != 0, "Elias codes do not handle 0");
+
         let mut stack = Vec::<(usize, u64)>::new();
 
         while value > 1 {
-- 
2.43.0


From 8f9cd85affd50656bcd8b805028d6509fab60f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 15/25] fix: IntVector::with_fill rejects a bad element width
 before filling

---
 src/int_vec/int_vector.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/int_vec/int_vector.rs b/src/int_vec/int_vector.rs
index 998aec3..d0be83d 100644
--- a/src/int_vec/int_vector.rs
+++ b/src/int_vec/int_vector.rs
@@ -92,6 +92,7 @@ impl<Block: BlockType> IntVector<Block> {
 
     /// Creates a new integer vector containing `len` copies of `value`.
     pub fn with_fill(element_bits: usize, len: u64, value: Block) -> Self {
+        Self::check_element_bits(element_bits);
         Self::create(element_bits,
                      VectorBase::with_fill(element_bits, len, value))
     }
-- 
2.43.0


From 5a07a6c1b3e4b07675c65bac596327278d55728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 16/25] fix: reserve makes room for the additional elements on
 vectors with spare capacity

---
 src/internal/vector_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index f6a121d..47fe793 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -284,7 +284,7 @@ impl<Block: BlockType> VectorBase<Block> {
                 .and_then(|e| e.checked_mul(element_bits as u64))
                 .and_then(Block::checked_ceil_div_nbits)
                 .expect("VectorBase::reserve_(exact): overflow")
-                .saturating_sub(self.vec.capacity())
+                .saturating_sub(self.vec.len())
     }
 
     #[inline]
-- 
2.43.0


From 141af12361690a8ba14249e0f8b133a928c68b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 17/25] fix: the default BitVecMut::set_block rejects positions
 out of bounds

Without a check, the bit address of a large block position wraps around,
and the block is written inside the vector.
---
 src/bit_vec/traits.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index 901c2e7..0b734b5 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -139,6 +139,9 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if `position` is out of bounds.
     fn set_block(&mut self, position: usize, mut value: Self::Block) {
+        assert!(position < self.block_len(),
+                "BitVecMut::set_block: out of bounds");
+
         let limit = if position + 1 == self.block_len() {
             Self::Block::last_block_bits(self.bit_len())
         } else {
-- 
2.43.0


From 5e37dd55fad88674681b0d093aad53f422bba1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 18/25] fix: rank on words rejects positions out of bounds in
 every build

The checks were debug-only, so that in release builds such queries
answered with the rank of some other position.
---
 src/broadword.rs | 2 +-
 src/rank/prim.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index 17b8bb3..a2f18a1 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -29,7 +29,7 @@ pub struct Broadword(pub u64);
 
 impl BitRankSupport for Broadword {
     fn rank1(&self, position: u64) -> u64 {
-        debug_assert!(position < 64);
+        assert!(position < 64, "Broadword::rank1: out of bounds");
         count_ones(self.0 & u64::low_mask(position as usize + 1)) as u64
     }
 }
diff --git a/src/rank/prim.rs b/src/rank/prim.rs
index 7d10a78..1351f85 100644
--- a/src/rank/prim.rs
+++ b/src/rank/prim.rs
@@ -19,7 +19,8 @@ macro_rules! impl_rank_support_prim {
 
         impl BitRankSupport for $t {
             fn rank1(&self, position: u64) -> u64 {
-                debug_assert!(position < Self::nbits() as u64);
+                assert!(position < Self::nbits() as u64,
+                        "prim::rank1: out of bounds");
 
                 let mask = Self::low_mask((position + 1) as usize);
                 (*self & mask).count_ones() as u64
-- 
2.43.0


From 6ac6954d384623cd8467d4fbb1027950170fa47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 19/25] fix: bit spans near the maximum index do not wrap
 around bounds checks

The end of such a span was computed with an addition that wraps around
in release builds, so that the span passed for one inside the vector.
---
 src/bit_vec/prim.rs         | 8 ++++++--
 src/bit_vec/traits.rs       | 6 ++++--
 src/internal/vector_base.rs | 8 ++++++--
 src/storage.rs              | 8 ++++++--
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/bit_vec/prim.rs b/src/bit_vec/prim.rs
index 26e7d1d..a89bf8f 100644
--- a/src/bit_vec/prim.rs
+++ b/src/bit_vec/prim.rs
@@ -33,7 +33,9 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn get_bits(&self, start: u64, count: usize) -> Self {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                let limit = start.checked_add(count as u64)
+                                 .expect("prim::get_bits: index overflow");
+                assert!(limit <= Self::nbits() as u64,
                         "prim::get_bits: out of bounds");
                 BlockType::get_bits(*self, start as usize, count)
             }
@@ -55,7 +57,9 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                let limit = start.checked_add(count as u64)
+                                 .expect("prim::set_bits: index overflow");
+                assert!(limit <= Self::nbits() as u64,
                         "prim::set_bits: out of bounds");
                 *self = self.with_bits(start as usize, count, value);
             }
diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index 0b734b5..fa6cda3 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -75,7 +75,8 @@ pub trait BitVec {
     ///
     /// Panics if the bit span goes out of bounds.
     fn get_bits(&self, start: u64, count: usize) -> Self::Block {
-        let limit = start + count as u64;
+        let limit = start.checked_add(count as u64)
+                         .expect("BitVec::get_bits: index overflow");
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
 
         // There might be no block at `start` if it is the end.
@@ -163,7 +164,8 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if the bit span goes out of bounds.
     fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
-        let limit = start + count as u64;
+        let limit = start.checked_add(count as u64)
+                         .expect("BitVecMut::set_bits: index overflow");
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
 
         // There might be no block at `start` if it is the end.
diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index 47fe793..90e71e2 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -118,7 +118,9 @@ impl<Block: BlockType> VectorBase<Block> {
     pub fn get_bits(&self, element_bits: usize, index: u64, count: usize)
                     -> Block {
         // If element_bits is legit then the RHS of the comparison can't overflow.
-        assert!(index + count as u64 <= self.len * element_bits as u64,
+        let limit = index.checked_add(count as u64)
+                         .expect("VectorBase::get_bits: index overflow");
+        assert!(limit <= self.len * element_bits as u64,
                 "VectorBase::get_bits: out of bounds");
         self.vec.get_bits(index, count)
     }
@@ -127,7 +129,9 @@ impl<Block: BlockType> VectorBase<Block> {
     pub fn set_bits(&mut self, element_bits: usize, index: u64,
                     count: usize, value: Block) {
         // If element_bits is legit then the RHS of the comparison can't overflow.
-        assert!(index + count as u64 <= self.len * element_bits as u64,
+        let limit = index.checked_add(count as u64)
+                         .expect("VectorBase::set_bits: index overflow");
+        assert!(limit <= self.len * element_bits as u64,
                 "VectorBase::set_bits: out of bounds");
         self.vec.set_bits(index, count, value);
     }
diff --git a/src/storage.rs b/src/storage.rs
index d5f9cd7..34a5a71 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -178,7 +178,9 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn get_bits(self, start: usize, len: usize) -> Self {
-        assert!(start + len <= Self::nbits(),
+        let limit = start.checked_add(len)
+                         .expect("Block::get_bits: index overflow");
+        assert!(limit <= Self::nbits(),
                 "Block::get_bits: out of bounds");;
 
         if len == 0 { return Self::zero(); }
@@ -193,7 +195,9 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn with_bits(self, start: usize, len: usize, value: Self) -> Self {
-        assert!(start + len <= Self::nbits(),
+        let limit = start.checked_add(len)
+                         .expect("Block::with_bits: index overflow");
+        assert!(limit <= Self::nbits(),
                 "Block::with_bits: out of bounds");
 
         if len == 0 { return self; }
-- 
2.43.0


From 2577c2e09e6c291e8945cb5f186e505eca928e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 20/25] fix: Iter::nth beyond the end leaves an exhausted
 iterator

It moved the front past the limit, after which len, size_hint and count
underflowed.
---
 src/internal/vector_base.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index 90e71e2..941179d 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -1,5 +1,7 @@
 #![allow(dead_code)]
 
+use std::cmp::min;
+
 #[cfg(target_pointer_width = "32")]
 use num_traits::ToPrimitive;
 
@@ -394,7 +396,9 @@ impl<'a, Block: BlockType> Iterator for Iter<'a, Block> {
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.start = self.start.checked_add(n as u64).unwrap_or(self.limit);
+        // Never skip beyond the limit, or sizes would go wrong.
+        self.start = self.start.checked_add(n as u64)
+                               .map_or(self.limit, |i| min(i, self.limit));
         self.next()
     }
 }
-- 
2.43.0


From d260ee0a576e82062189ef1ca7fcfe836ecd5a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 21/25] fix: rounding-up divisions near the maximum do not
 overflow

---
 src/storage.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 34a5a71..800fc03 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -57,7 +57,7 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// size, which is why it takes `u64` and returns `usize`.
     #[inline]
     fn ceil_div_nbits(index: u64) -> usize {
-        Self::div_nbits(index + (Self::nbits() as u64 - 1))
+        Self::div_nbits(index) + (Self::mod_nbits(index) != 0) as usize
     }
 
     /// Returns `index / Self::nbits()` rounded up, computed by shifting.
@@ -69,7 +69,9 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// be small enough.
     #[inline]
     fn checked_ceil_div_nbits(index: u64) -> Option<usize> {
-        Self::checked_div_nbits(index + (Self::nbits() as u64 - 1))
+        // The addition can't overflow, as the quotient is less than `2^61`.
+        ((index >> Self::lg_nbits()) + (Self::mod_nbits(index) != 0) as u64)
+            .to_usize()
     }
 
     /// Returns `index % Self::nbits()`, computed by masking.
@@ -227,7 +229,12 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Returns the smallest number `n` such that `n * divisor >= self`.
     #[inline]
     fn ceil_div(self, divisor: Self) -> Self {
-        (self + divisor - Self::one()) / divisor
+        let quotient = self / divisor;
+        if self % divisor == Self::zero() {
+            quotient
+        } else {
+            quotient + Self::one()
+        }
     }
 
     // I/O methods
-- 
2.43.0


From 8f23e58e4e9e006b21ec4905378abab7d658e54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 22/25] fix: indices of block-sized integers beyond usize are
 rejected

---
 src/int_vec/int_vector.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/int_vec/int_vector.rs b/src/int_vec/int_vector.rs
index d0be83d..6f8392a 100644
--- a/src/int_vec/int_vector.rs
+++ b/src/int_vec/int_vector.rs
@@ -1,5 +1,7 @@
 use std::fmt;
 
+use num_traits::ToPrimitive;
+
 use super::*;
 use bit_vec::{BitVec, BitVecMut};
 use internal::vector_base::{VectorBase, self};
@@ -61,6 +63,12 @@ impl<Block: BlockType> IntVector<Block> {
         .expect("IntVector: index overflow")
     }
 
+    // Where elements are block-sized, an element index is a block index.
+    #[inline]
+    fn to_block_index(element_index: u64) -> usize {
+        element_index.to_usize().expect("IntVector: index overflow")
+    }
+
     /// Creates a new integer vector.
     ///
     /// # Arguments
@@ -305,7 +313,8 @@ impl<Block: BlockType> IntVec for IntVector<Block> {
 
     fn get(&self, element_index: u64) -> Block {
         if self.is_block_sized() {
-            return self.base.get_block(element_index as usize);
+            let block_index = Self::to_block_index(element_index);
+            return self.base.get_block(block_index);
         }
 
         let address = self.compute_address(element_index);
@@ -320,9 +329,8 @@ impl<Block: BlockType> IntVec for IntVector<Block> {
 impl<Block: BlockType> IntVecMut for IntVector<Block> {
     fn set(&mut self, element_index: u64, element_value: Block) {
         if self.is_block_sized() {
-            self.base.set_block(self.element_bits,
-                                element_index as usize,
-                                element_value);
+            let block_index = Self::to_block_index(element_index);
+            self.base.set_block(self.element_bits, block_index, element_value);
             return;
         }
 
-- 
2.43.0


From 368cdc70f0a2d1071fad6376d220578c89edf1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:15 +0000
Subject: [PATCH 23/25] fix: bit spans that leave the addressable blocks do not
 wrap around to the first

---
 src/bit_vec/traits.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index fa6cda3..abce857 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -92,8 +92,10 @@ pub trait BitVec {
 
         let extra = count - margin;
 
+        let next_index = address.block_index.checked_add(1)
+                                .expect("BitVec::get_bits: index overflow");
         let block1 = self.get_block(address.block_index);
-        let block2 = self.get_block(address.block_index + 1);
+        let block2 = self.get_block(next_index);
 
         let low_bits = block1.get_bits(address.bit_offset, margin);
         let high_bits = block2.get_bits(0, extra);
@@ -183,8 +185,10 @@ pub trait BitVecMut: BitVec {
 
         let extra = count - margin;
 
+        let next_index = address.block_index.checked_add(1)
+                                .expect("BitVecMut::set_bits: index overflow");
         let old_block1 = self.get_block(address.block_index);
-        let old_block2 = self.get_block(address.block_index + 1);
+        let old_block2 = self.get_block(next_index);
 
         let high_bits = value >> margin;
 
@@ -193,7 +197,7 @@ pub trait BitVecMut: BitVec {
         let new_block2 = old_block2.with_bits(0, extra, high_bits);
 
         self.set_block(address.block_index, new_block1);
-        self.set_block(address.block_index + 1, new_block2);
+        self.set_block(next_index, new_block2);
     }
 }
 
-- 
2.43.0


From 901bad218023eaaafb705e3d13bac49aa47be4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:18 +0000
Subject: [PATCH 24/25] fix: a number of blocks beyond usize is rejected, not
 truncated

---
 src/bit_vec/bit_slice.rs |  9 ++++++---
 src/bit_vec/traits.rs    | 17 +++++++++++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/bit_vec/bit_slice.rs b/src/bit_vec/bit_slice.rs
index 5831199..ec88b2e 100644
--- a/src/bit_vec/bit_slice.rs
+++ b/src/bit_vec/bit_slice.rs
@@ -109,7 +109,8 @@ impl<'a, Base: 'a + BitVec + ?Sized> BitVec for BitSlice<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        assert!(position < self.block_len(),
+        // The number of blocks might not fit in a `usize`.
+        assert!((position as u64) < self.len.ceil_div(Self::Block::nbits() as u64),
                 "BitSlice::get_block: out of bounds");
         let start = Self::Block::mul_nbits(position);
         // The last block might be partial:
@@ -140,7 +141,8 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVec for BitSliceMut<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        assert!(position < self.block_len(),
+        // The number of blocks might not fit in a `usize`.
+        assert!((position as u64) < self.len.ceil_div(Self::Block::nbits() as u64),
                 "BitSliceMut::get_block: out of bounds");
         let start = Self::Block::mul_nbits(position);
         // The last block might be partial:
@@ -164,7 +166,8 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVecMut for BitSliceMut<'a, Base> {
     }
 
     fn set_block(&mut self, position: usize, value: Self::Block) {
-        assert!(position < self.block_len(),
+        // The number of blocks might not fit in a `usize`.
+        assert!((position as u64) < self.len.ceil_div(Self::Block::nbits() as u64),
                 "BitSliceMut::set_block: out of bounds");
         let start = Self::Block::mul_nbits(position);
         // The last block might be partial:
diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index abce857..2b5e9a5 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -16,8 +16,13 @@ pub trait BitVec {
     fn bit_len(&self) -> u64;
 
     /// The length of the slice in blocks.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the number of blocks doesn't fit in a `usize`.
     fn block_len(&self) -> usize {
-        self.bit_len().ceil_div(Self::Block::nbits() as u64) as usize
+        self.bit_len().ceil_div(Self::Block::nbits() as u64)
+                      .to_usize().expect("BitVec::block_len: overflow")
     }
 
     /// Gets the bit at `position`
@@ -50,7 +55,9 @@ pub trait BitVec {
     ///
     /// Panics if `position` is out of bounds.
     fn get_block(&self, position: usize) -> Self::Block {
-        assert!(position < self.block_len(),
+        // The number of blocks might not fit in a `usize`.
+        let block_len = self.bit_len().ceil_div(Self::Block::nbits() as u64);
+        assert!((position as u64) < block_len,
                 "IntSlice::get_block: out of bounds");
 
         let bit_position = position as u64 * Self::Block::nbits() as u64;
@@ -142,10 +149,12 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if `position` is out of bounds.
     fn set_block(&mut self, position: usize, mut value: Self::Block) {
-        assert!(position < self.block_len(),
+        // The number of blocks might not fit in a `usize`.
+        let block_len = self.bit_len().ceil_div(Self::Block::nbits() as u64);
+        assert!((position as u64) < block_len,
                 "BitVecMut::set_block: out of bounds");
 
-        let limit = if position + 1 == self.block_len() {
+        let limit = if position as u64 + 1 == block_len {
             Self::Block::last_block_bits(self.bit_len())
         } else {
             Self::Block::nbits()
-- 
2.43.0


From ddc71c53e3705c3776132a138519615f07ac7000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:37 +0000
Subject: [PATCH 25/25] fix: counting more elements than usize can hold panics
 instead of truncating

---
 src/internal/vector_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index 941179d..4d53cdd 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -415,7 +415,7 @@ impl<'a, Block: BlockType> ExactSizeIterator for Iter<'a, Block> {
 impl<'a, Block: BlockType> ExactSizeIterator for Iter<'a, Block> {
     #[inline]
     fn len(&self) -> usize {
-        (self.limit - self.start) as usize
+        (self.limit - self.start).to_usize().expect("Iter::len: overflow")
     }
 }
 
-- 
2.43.0

