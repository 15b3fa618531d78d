From 845e3860fb07879a1fde3964daa68aa401923fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 01/26] fix: CuckooFilter::capacity counts the entries of the
 table

It reported the number of fingerprints that fit into the allocated blocks,
which is more than the number of entries whenever the table does not fill its
last block. This also distorted estimated_fpp and the growth of
ScalableCuckooFilter.
---
 src/cuckoo/cuckoo_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 9d3545a..002450b 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -649,7 +649,7 @@ where
     /// assert_eq!(filter.capacity(), 128);
     /// ```
     pub fn capacity(&self) -> usize {
-        self.fingerprint_vec.capacity()
+        self.fingerprint_vec.len()
     }
 
     /// Returns the length of each bucket in the cuckoo filter.
-- 
2.43.0


From 0d0c3ede6db2dc6ecc8dfb5bf1aceb0a558bc8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 02/26] fix: CuckooFilter::is_empty takes overflow entries into
 account

---
 src/cuckoo/cuckoo_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 002450b..f03410c 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -633,7 +633,7 @@ where
     /// assert!(filter.is_empty());
     /// ```
     pub fn is_empty(&self) -> bool {
-        self.len() == 0
+        self.len() == 0 && self.extra_items.is_empty()
     }
 
     /// Returns the maximum capacity of the cuckoo filter. Items stay spill into the extra items
-- 
2.43.0


From 2eb8259df7e3ca658c5e174f0e7698d7241b3aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 03/26] fix: ScalableCuckooFilter::remove removes from one
 filter only

An item is stored in the first filter that reports it. Removing its
fingerprint from the later filters too could delete a different item that
collides with it only there.
---
 src/cuckoo/scalable_cuckoo_filter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cuckoo/scalable_cuckoo_filter.rs b/src/cuckoo/scalable_cuckoo_filter.rs
index bd50222..058a9b7 100644
--- a/src/cuckoo/scalable_cuckoo_filter.rs
+++ b/src/cuckoo/scalable_cuckoo_filter.rs
@@ -306,7 +306,11 @@ where
         T: Borrow<U>,
         U: Hash + ?Sized,
     {
-        for filter in &mut self.filters {
+        if let Some(filter) = self
+            .filters
+            .iter_mut()
+            .find(|filter| filter.contains(item))
+        {
             filter.remove(item);
         }
     }
-- 
2.43.0


From 01cb528b3881b39fd8b578e2ed474e1a5953260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 04/26] fix: CuckooFilter with a tiny false positive
 probability

Below about 1e-14 the rounding of 1 - fpp gave too narrow fingerprints, and
below 1e-17 an infinite width, so that a ScalableCuckooFilter panicked after
enough growth steps. Compute the width accurately and use at most 64 bits.
---
 src/cuckoo/cuckoo_filter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index f03410c..2ce5829 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -320,8 +320,9 @@ where
     ) -> Self {
         assert!(item_count > 0);
         assert!(entries_per_index > 0);
-        let power = 2.0 / (1.0 - (1.0 - fpp).powf(1.0 / (2.0 * entries_per_index as f64)));
-        let fingerprint_bit_count = power.log2().ceil() as usize;
+        let single_fpp = -((-fpp).ln_1p() / (2.0 * entries_per_index as f64)).exp_m1();
+        let power = 2.0 / single_fpp;
+        let fingerprint_bit_count = (power.log2().ceil() as usize).min(64);
         let exact_bucket_len = (item_count + entries_per_index - 1) / entries_per_index;
         let bucket_len = exact_bucket_len.next_power_of_two();
         CuckooFilter {
-- 
2.43.0


From 33b01294a29b78d4c485230421c0837020c9acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 05/26] fix: ScalableBloomFilter survives underflow of the
 tightened probability

Once initial_fpp * tightening_ratio^n became zero, the next filter was made
with usize::MAX hash functions and the following insertion never returned.
---
 src/bloom/scalable_bloom_filter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bloom/scalable_bloom_filter.rs b/src/bloom/scalable_bloom_filter.rs
index f0dd03b..4c462af 100644
--- a/src/bloom/scalable_bloom_filter.rs
+++ b/src/bloom/scalable_bloom_filter.rs
@@ -133,7 +133,8 @@ where
                     let exponent = self.filters.len() as i32;
                     new_filter = Some(BloomFilter::from_fpp_with_hashers(
                         (filter.len() as f64 * self.growth_ratio).ceil() as usize,
-                        self.initial_fpp * self.tightening_ratio.powi(exponent),
+                        (self.initial_fpp * self.tightening_ratio.powi(exponent))
+                            .max(f64::MIN_POSITIVE),
                         *filter.hashers(),
                     ));
                     self.approximate_bits_used = 0;
-- 
2.43.0


From 896eef3820648eabfe4426721c7ac08af075322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 06/26] fix: QuotientFilter::remove ignores items whose run
 does not exist

---
 src/quotient.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 6a598c8..e9a9645 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -442,8 +442,8 @@ where
         let (quotient, remainder) =
             self.get_quotient_and_remainder(util::hash(&self.hash_builder, &item));
 
-        // empty slot
-        if self.slot_vec.get(quotient) & METADATA_MASK == 0 {
+        // no such run exists
+        if self.slot_vec.get(quotient) & OCCUPIED_MASK == 0 {
             return;
         }
 
-- 
2.43.0


From 7450b6ecf49e00b445d2c77e966f2eef1402fa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 07/26] fix: QuotientFilter::remove clears the occupied bit of
 a removed run

---
 src/quotient.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index e9a9645..83bd0b0 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -481,6 +481,13 @@ where
         self.increment_index(&mut next_index);
         let mut next_slot = self.slot_vec.get(next_index);
 
+        // the removed item was the only item of its run, so we can delete the occupied bit of its
+        // canonical slot
+        if is_run_start && next_slot & CONTINUATION_MASK == 0 {
+            let canonical_slot = self.slot_vec.get(quotient) & !OCCUPIED_MASK;
+            self.slot_vec.set(quotient, canonical_slot);
+        }
+
         // continue until it is not shifted and not a continuation: the only cases are if it is an
         // item in its canonical position, or if the slot is empty
         while next_slot & CONTINUATION_MASK != 0 || next_slot & SHIFTED_MASK != 0 {
@@ -489,11 +496,6 @@ where
             // update number of runs since the entire run gets shifted to left
             if next_slot & CONTINUATION_MASK == 0 {
                 runs_count += 1;
-                // next slot is a new run, so we can delete occupied bit of canonical position
-                if is_run_start {
-                    let canonical_slot = self.slot_vec.get(quotient) & !OCCUPIED_MASK;
-                    self.slot_vec.set(quotient, canonical_slot);
-                }
             }
             // if first item is a start of a run, the next item must be a start of a run. The
             // next item is either already a start of a run or the new start of the removed
-- 
2.43.0


From aeb0d36739d8077c30e590fb68e6d49324aab0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 08/26] fix: QuotientFilter allocates one slot per quotient

---
 src/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 83bd0b0..7151666 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -232,7 +232,7 @@ where
         assert!(remainder_bits > 0);
         assert!(quotient_bits + remainder_bits <= 64);
         let slot_bits = remainder_bits + METADATA_BITS;
-        let slot_vec_len = u64::from(slot_bits) * (1u64 << quotient_bits);
+        let slot_vec_len = 1u64 << quotient_bits;
         QuotientFilter {
             quotient_bits,
             remainder_bits,
-- 
2.43.0


From cba61ae00385672c4185fe2afe57c2f8b4d7ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 09/26] fix: QuotientFilter::from_fpp meets the false positive
 probability

---
 src/quotient.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 7151666..869c28e 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -268,7 +268,8 @@ where
     /// ```
     pub fn from_fpp_with_hasher(capacity: usize, fpp: f64, hash_builder: B) -> Self {
         let quotient_bits = (capacity as f64 * 1.33).log2().ceil() as u8;
-        let remainder_bits = (1.0 / -2.0 / (1.0 - fpp).ln()).log2().ceil() as u8;
+        // the filter is at most 1 / 1.33 full after inserting `capacity` items
+        let remainder_bits = (1.0 / 1.33 / -(-fpp).ln_1p()).log2().ceil().max(1.0) as u8;
         Self::with_hasher(quotient_bits, remainder_bits, hash_builder)
     }
 
-- 
2.43.0


From 247de7000ccc588aecf06de56a0aa60035aebad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 10/26] fix: QuotientFilter refuses widths whose sum overflows

---
 src/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 869c28e..b3ed82e 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -230,7 +230,7 @@ where
     pub fn with_hasher(quotient_bits: u8, remainder_bits: u8, hash_builder: B) -> Self {
         assert!(quotient_bits > 0);
         assert!(remainder_bits > 0);
-        assert!(quotient_bits + remainder_bits <= 64);
+        assert!(u16::from(quotient_bits) + u16::from(remainder_bits) <= 64);
         let slot_bits = remainder_bits + METADATA_BITS;
         let slot_vec_len = 1u64 << quotient_bits;
         QuotientFilter {
-- 
2.43.0


From 0a2a8adbdcf02f027cefb8ebf528dea8747b570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 11/26] fix: HyperLogLog has as many registers as the error
 probability needs

---
 src/hyperloglog.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index eece6a9..cb5535a 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -77,7 +77,7 @@ where
     B: BuildHasher,
 {
     fn get_alpha(p: usize) -> f64 {
-        assert!((..=16).contains(&p));
+        assert!((..=24).contains(&p));
         match p {
             4 => 0.673,
             5 => 0.697,
@@ -102,7 +102,7 @@ where
     /// ```
     pub fn with_hasher(error_probability: f64, hash_builder: B) -> Self {
         assert!(0.0 < error_probability && error_probability < 1.0);
-        let p = (1.04 / error_probability).powi(2).ln().ceil() as usize;
+        let p = (1.04 / error_probability).powi(2).log2().ceil() as usize;
         let alpha = Self::get_alpha(p);
         let registers_len = 1 << p;
         HyperLogLog {
-- 
2.43.0


From dcb2055f06cca099c08919be6c0e7722a2e86336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 12/26] fix: HyperLogLog::len is finite when every register is
 touched

---
 src/hyperloglog.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index cb5535a..053dd7b 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -209,7 +209,11 @@ where
                     .iter()
                     .map(|value| u64::from(*value == 0))
                     .sum::<u64>();
-                len * (len / zeros as f64).ln()
+                if zeros == 0 {
+                    x
+                } else {
+                    len * (len / zeros as f64).ln()
+                }
             }
             x if x <= 1.0 / 3.0 * 2.0f64.powi(32) => x,
             x => -(2.0f64.powi(32)) * (1.0 - x / 2.0f64.powi(32)).ln(),
-- 
2.43.0


From 20e709f2bb945945e5dd971ad2c1b31175bf6f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 13/26] fix: HyperLogLog::len does not correct for 32-bit
 hashes

---
 src/hyperloglog.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 053dd7b..e3d393e 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -215,8 +215,8 @@ where
                     len * (len / zeros as f64).ln()
                 }
             }
-            x if x <= 1.0 / 3.0 * 2.0f64.powi(32) => x,
-            x => -(2.0f64.powi(32)) * (1.0 - x / 2.0f64.powi(32)).ln(),
+            // hashes have 64 bits, so collisions are negligible for large cardinalities
+            x => x,
         }
     }
 
-- 
2.43.0


From 866f03179b3692d6ad7ecd7f9b9495f64b027f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 14/26] fix: HyperLogLog computes the harmonic mean estimate

---
 src/hyperloglog.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index e3d393e..74188c6 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -176,14 +176,12 @@ where
 
     fn get_estimate(&self) -> f64 {
         let len = self.registers.len() as f64;
-        1.0 / (self.alpha
-            * len
-            * len
-            * self
+        self.alpha * len * len
+            / self
                 .registers
                 .iter()
                 .map(|value| 1.0 / 2.0f64.powi(i32::from(*value)))
-                .sum::<f64>())
+                .sum::<f64>()
     }
 
     /// Returns the estimated number of distinct items in the `HyperLogLog<T>`.
-- 
2.43.0


From d69d5937f93e15b5f607a2e17c2142c593f07e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 15/26] fix: SimHash::report_similarities handles lists shorter
 than the window

---
 src/similarity/sim_hash.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/similarity/sim_hash.rs b/src/similarity/sim_hash.rs
index dff83fb..046f0d4 100644
--- a/src/similarity/sim_hash.rs
+++ b/src/similarity/sim_hash.rs
@@ -160,6 +160,7 @@ where
             .enumerate()
             .map(|(index, shingles)| (self.get_sim_hash(shingles), index))
             .collect();
+        let window_size = cmp::min(window_size, sim_hashes.len());
 
         let mut similarities = HashSet::new();
 
-- 
2.43.0


From 1a87e9949be01fbbe3aeb31995f3536a64885c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 16/26] fix: ShingleIterator with fewer tokens than a shingle
 needs

---
 src/similarity/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/similarity/mod.rs b/src/similarity/mod.rs
index 9976323..b314899 100644
--- a/src/similarity/mod.rs
+++ b/src/similarity/mod.rs
@@ -65,7 +65,9 @@ where
     type Item = Vec<&'a T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.index > self.tokens.len() - self.token_count {
+        if self.token_count > self.tokens.len()
+            || self.index > self.tokens.len() - self.token_count
+        {
             return None;
         }
         self.index += 1;
-- 
2.43.0


From c16fb2515bbda6c9fd664aafed7aa45776e52a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 17/26] hook: re-export the storage types under cfg(vmc)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 24ca05e..3856db4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -105,3 +105,10 @@ mod util;
 
 pub use self::util::SipHasherBuilder;
 use self::util::{DoubleHasher, HashIter};
+
+/// The private storage types, for the model checker (`--cfg vmc`).
+#[cfg(vmc)]
+pub mod vmc_internals {
+    pub use crate::bit_vec::BitVec;
+    pub use crate::bitstring_vec::BitstringVec;
+}
-- 
2.43.0


From f5a77a5d1134aa405b0648793fb2e81fb9d7c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 18/26] fix: BitstringVec::pop leaves no bits of the element
 behind

---
 src/bitstring_vec.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bitstring_vec.rs b/src/bitstring_vec.rs
index 6ffd09e..a4bf611 100644
--- a/src/bitstring_vec.rs
+++ b/src/bitstring_vec.rs
@@ -144,12 +144,11 @@ impl BitstringVec {
         assert!(!self.is_empty());
         let ret = self.get(self.len - 1);
         let len = self.len;
+        // clear the bits that remain in the last block
+        self.set(len - 1, 0);
         let new_blocks_len = Self::get_block_count(self.bit_count, len - 1);
         self.blocks.truncate(new_blocks_len);
         self.len -= 1;
-        if ret != 0 {
-            self.occupied_len -= 1;
-        }
         ret
     }
 
-- 
2.43.0


From 43aca4e39420d9ced217a1c9bcea56d7bf1e2e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 19/26] fix: BitVec::truncate updates the number of ones

---
 src/bit_vec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index ce7f1b8..7cc079a 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -199,6 +199,11 @@ impl BitVec {
             self.len = len;
             self.blocks.truncate(Self::get_block_count(len));
             self.clear_extra_bits();
+            self.one_count = self
+                .blocks
+                .iter()
+                .map(|block| block.count_ones() as usize)
+                .sum();
         }
     }
 
-- 
2.43.0


From 6e7f0b6da1dcd570e82ca3d7f0328ec78948c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 20/26] fix: BitVec::flip_all leaves no bits set beyond the end

---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index 7cc079a..5daaf30 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -156,6 +156,7 @@ impl BitVec {
         for block in &mut self.blocks {
             *block = !*block;
         }
+        self.clear_extra_bits();
     }
 
     fn apply<F>(&mut self, other: &BitVec, mut op: F)
-- 
2.43.0


From 8c71c20c8b1fc86804825a2c380f2be6502a7edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 21/26] fix: BitVec::clone_from copies the number of ones

---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index 5daaf30..32a08c5 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -297,6 +297,7 @@ impl Clone for BitVec {
 
     fn clone_from(&mut self, source: &Self) {
         self.len = source.len;
+        self.one_count = source.one_count;
         self.blocks.clone_from(&source.blocks);
     }
 }
-- 
2.43.0


From 176df38f5cb0cbd4e0530914748b6d6019ad6024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 22/26] fix: QuotientFilter::from_fpp refuses probabilities
 outside (0, 1) as documented

---
 src/quotient.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quotient.rs b/src/quotient.rs
index b3ed82e..2e95b6b 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -267,6 +267,7 @@ where
     /// );
     /// ```
     pub fn from_fpp_with_hasher(capacity: usize, fpp: f64, hash_builder: B) -> Self {
+        assert!(0.0 < fpp && fpp < 1.0);
         let quotient_bits = (capacity as f64 * 1.33).log2().ceil() as u8;
         // the filter is at most 1 / 1.33 full after inserting `capacity` items
         let remainder_bits = (1.0 / 1.33 / -(-fpp).ln_1p()).log2().ceil().max(1.0) as u8;
-- 
2.43.0


From 5bfb1ad04d64ff799ad9cc843a66a0e5ff0a2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 23/26] fix: CuckooFilter::from_fingerprint_bit_count loses
 precision for wide fingerprints

---
 src/cuckoo/cuckoo_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 2ce5829..e289a01 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -373,8 +373,8 @@ where
         assert!(item_count > 0);
         assert!(fingerprint_bit_count > 1 && fingerprint_bit_count <= 64);
         let fingerprints_count = 2.0f64.powi(fingerprint_bit_count as i32);
-        let single_fpp = (fingerprints_count - 2.0) / (fingerprints_count - 1.0);
-        let entries_per_index = ((1.0 - fpp).log(single_fpp) / 2.0).floor() as usize;
+        let single_fpp = 1.0 / (fingerprints_count - 1.0);
+        let entries_per_index = ((-fpp).ln_1p() / (-single_fpp).ln_1p() / 2.0).floor() as usize;
         assert!(entries_per_index > 0);
         let exact_bucket_len = (item_count + entries_per_index - 1) / entries_per_index;
         let bucket_len = exact_bucket_len.next_power_of_two();
-- 
2.43.0


From 1d0647a39b0a6e63ff972feb94ac804a26d70806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:54 +0000
Subject: [PATCH 24/26] fix: CountMeanStrategy loses the low bits of large
 counts and overflows on their sum

---
 src/count_min_sketch.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/count_min_sketch.rs b/src/count_min_sketch.rs
index 7787659..263c38c 100644
--- a/src/count_min_sketch.rs
+++ b/src/count_min_sketch.rs
@@ -33,7 +33,10 @@ pub struct CountMeanStrategy;
 
 impl CountStrategy for CountMeanStrategy {
     fn get_estimate(_items: i64, rows: usize, _cols: usize, iter: ItemValueIter<'_>) -> i64 {
-        (iter.sum::<i64>() as f64 / rows as f64).round() as i64
+        let sum = iter.map(i128::from).sum::<i128>();
+        let rows = rows as i128;
+        // rounds half away from zero; floating point would lose the low bits of large counts
+        ((2 * sum.abs() + rows) / (2 * rows) * sum.signum()) as i64
     }
 }
 
-- 
2.43.0


From 0272d4b3898d71507e5bdb37bdbb7aceac4f2180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:45 +0000
Subject: [PATCH 25/26] fix: CountMedianBiasStrategy loses the low bits of
 large counts

---
 src/count_min_sketch.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/count_min_sketch.rs b/src/count_min_sketch.rs
index 263c38c..efed6b2 100644
--- a/src/count_min_sketch.rs
+++ b/src/count_min_sketch.rs
@@ -49,8 +49,14 @@ pub struct CountMedianBiasStrategy;
 impl CountStrategy for CountMedianBiasStrategy {
     fn get_estimate(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> i64 {
         let min_count = CountMinStrategy::get_estimate(items, rows, cols, iter.clone());
+        // with a single column there are no other items in it and no noise
+        let other_cols = i128::max(cols as i128 - 1, 1);
         let mut items_with_bias: Vec<i64> = iter
-            .map(|value| value - ((items - value) as f64 / (cols - 1) as f64).ceil() as i64)
+            .map(|value| {
+                // rounded up; floating point would lose the low bits of large counts
+                let noise = -(i128::from(value) - i128::from(items)).div_euclid(other_cols);
+                (i128::from(value) - noise) as i64
+            })
             .collect();
         items_with_bias.sort();
         let median_count = items_with_bias[(items_with_bias.len() - 1) / 2];
-- 
2.43.0


From 0d720e05c76d712f4b03abf743b92c51f24ef25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:16 +0000
Subject: [PATCH 26/26] fix: HyperLogLog refuses small error probabilities its
 documentation allows

get_alpha asserts that at most 2^24 registers are asked for, an argument
check that is documented nowhere, so HyperLogLog::new(0.0001) panics.
---
 src/hyperloglog.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 74188c6..19cdb49 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -77,12 +77,12 @@ where
     B: BuildHasher,
 {
     fn get_alpha(p: usize) -> f64 {
-        assert!((..=24).contains(&p));
+        assert!(p < 64);
         match p {
             4 => 0.673,
             5 => 0.697,
             6 => 0.709,
-            p => 0.7213 / (1.0 + 1.079 / f64::from(1 << p)),
+            p => 0.7213 / (1.0 + 1.079 / 2.0f64.powi(p as i32)),
         }
     }
 
-- 
2.43.0

