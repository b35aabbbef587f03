From 409309c1a9e5ef89608ae78515c21171756f758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:28 +0000
Subject: [PATCH 01/18] fix: clear the index cache along with the buckets

A cleared filter kept the stale bits of its index cache. With optimization
levels 2 and 3 it therefore had more false positives than a new filter once
it was filled again.
---
 poppy/src/bloom/v2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 39fc238..2f387bc 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -350,6 +350,7 @@ impl BloomFilter {
     /// Clears out the bloom filter
     #[inline(always)]
     pub fn clear(&mut self) {
+        self.index_cache.clear();
         self.buckets.iter_mut().for_each(|bucket| bucket.clear());
         self.count = 0;
     }
-- 
2.43.0


From 09314827d887789b6be7e54c3f4e95138ce89913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:28 +0000
Subject: [PATCH 02/18] fix: treat a filter holding more entries than its
 capacity as full

A union can bring the estimated count above the capacity. Such a filter was
not reported as full, and version 2 filters accepted further entries.
---
 poppy/src/bloom/v1.rs | 2 +-
 poppy/src/bloom/v2.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 146b93a..b5c74cb 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -366,7 +366,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     #[inline(always)]
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 2f387bc..a20f3d0 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -387,7 +387,7 @@ impl BloomFilter {
             .get_mut(ibucket as usize)
             .expect("ibucket out of bound");
 
-        let reached_cap = self.count == self.capacity;
+        let reached_cap = self.count >= self.capacity;
 
         for ibit in it {
             if reached_cap && !bucket.get_nth_bit(ibit as usize) {
@@ -549,7 +549,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     /// this function estimates the number of common elements between two bloom filters
-- 
2.43.0


From a67e2a48b6a641211a7f410bfb790eb75a4562dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:28 +0000
Subject: [PATCH 03/18] fix: make unset_nth_bit clear the bit

unset_nth_bit left the bit as it was and always returned true.
---
 poppy/src/bitset/array.rs | 8 ++++++--
 poppy/src/bitset/vec.rs   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/poppy/src/bitset/array.rs b/poppy/src/bitset/array.rs
index c5313d4..49191c1 100644
--- a/poppy/src/bitset/array.rs
+++ b/poppy/src/bitset/array.rs
@@ -13,9 +13,13 @@ impl<const N: usize> BitSet<N> {
     fn set_value_nth_bit(&mut self, index: usize, value: bool) -> bool {
         let iblock = index / 8;
         // equivalent to index % 8
-        let mask = (value as u8) << (index & 7);
+        let mask = 1u8 << (index & 7);
         let old = self.0[iblock] & mask == mask;
-        self.0[iblock] |= mask;
+        if value {
+            self.0[iblock] |= mask;
+        } else {
+            self.0[iblock] &= !mask;
+        }
         old
     }
 
diff --git a/poppy/src/bitset/vec.rs b/poppy/src/bitset/vec.rs
index b3e7615..9471b84 100644
--- a/poppy/src/bitset/vec.rs
+++ b/poppy/src/bitset/vec.rs
@@ -53,9 +53,13 @@ impl VecBitSet {
     fn set_value_nth_bit(&mut self, index: usize, value: bool) -> bool {
         let iblock = index / 8;
         // equivalent to index % 8
-        let mask = (value as u8) << (index & 7);
+        let mask = 1u8 << (index & 7);
         let old = self.0[iblock] & mask == mask;
-        self.0[iblock] |= mask;
+        if value {
+            self.0[iblock] |= mask;
+        } else {
+            self.0[iblock] &= !mask;
+        }
         old
     }
 
-- 
2.43.0


From 2821631d1ad37dfdee91d62f2f9b6bff84591591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:28 +0000
Subject: [PATCH 04/18] fix: report errors on the last buffer when writing a
 filter

The buffered writer was only flushed on drop, which ignores errors. A filter
could be truncated, on a full disk for example, while write returned Ok.
---
 poppy/src/bloom/v1.rs | 2 ++
 poppy/src/bloom/v2.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index b5c74cb..5ad9dde 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -229,6 +229,8 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        // dropping the writer would ignore errors on the last buffer
+        w.flush()?;
         Ok(())
     }
 
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index a20f3d0..e8f480b 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -275,6 +275,8 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        // dropping the writer would ignore errors on the last buffer
+        w.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 62bf96f2debd121160137679fc1994cd1ccf6f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:28 +0000
Subject: [PATCH 05/18] fix: compute the size of version 1 filters from 64 bits
 words

size_in_u64 returned the number of bits, so that size_in_bytes and the show
command reported a size 64 times too big.
---
 poppy/src/bloom/v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 5ad9dde..f3ea7e0 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -345,7 +345,7 @@ impl BloomFilter {
 
     #[inline(always)]
     pub fn size_in_u64(&self) -> usize {
-        self.bit_size as usize
+        f64::ceil(self.bit_size as f64 / 64.0) as usize
     }
 
     #[inline(always)]
-- 
2.43.0


From 7229d766c118204b69d25e7cfbadd463d889e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:28 +0000
Subject: [PATCH 06/18] fix: allocate at least one bit in non empty version 1
 filters

With a small capacity and a high false positive probability the computed
number of bits is zero. Entries were accepted but never found.
---
 poppy/src/bloom/v1.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index f3ea7e0..1f92409 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -107,7 +107,12 @@ impl BloomFilter {
         }
 
         // size in bits, computed from the capacity we want and the probability
-        let bit_size = utils::bit_size(cap, fpp);
+        let mut bit_size = utils::bit_size(cap, fpp);
+
+        // a filter without any bit could not report its entries
+        if cap > 0 {
+            bit_size = bit_size.max(1);
+        }
 
         // size in u64
         let u64_size = f64::ceil(bit_size as f64 / 64.0) as usize;
-- 
2.43.0


From 20d4f6a7d3fb96a0b76f349d8213c552fe8b3303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:28 +0000
Subject: [PATCH 07/18] fix: support -j 0 in the check command

The number of jobs was used as is, so -j 0 divided by zero.
---
 poppy/src/bin/poppy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index b3c0412..4ea9a8f 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -367,7 +367,7 @@ fn main() -> Result<(), anyhow::Error> {
                 let mut handles = vec![];
                 let files = o.inputs.clone();
 
-                let batches = files.chunks(max(files.len() / args.jobs, 1));
+                let batches = files.chunks(max(files.len() / optimal_jobs(args.jobs), 1));
 
                 for batch in batches {
                     let shared = Arc::clone(&bf);
-- 
2.43.0


From a52376bede2c19383b648ab14e5fe372d19dcf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:28 +0000
Subject: [PATCH 08/18] fix: stop counting dataset lines on read error

Errors were counted as lines. On a directory, which fails on every read, the
create command never ended.
---
 poppy/src/bin/poppy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index 4ea9a8f..e732a7b 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -202,7 +202,10 @@ fn count_lines_parallel<P: AsRef<Path> + Clone>(
             let mut count = 0usize;
             for f in batch {
                 let of = File::open(f)?;
-                count += io::BufReader::new(of).lines().count();
+                for line in io::BufReader::new(of).lines() {
+                    line?;
+                    count += 1;
+                }
             }
             Ok::<_, anyhow::Error>(count)
         }));
-- 
2.43.0


From f05b238ad5e2feaf43742feba12b8d03b9bc4f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:28 +0000
Subject: [PATCH 09/18] fix: do not overflow count estimates on saturated
 buckets

The estimate of a bucket with all its bits set is the maximum value of the
type. Summing it up with other buckets panicked, or wrapped to a small count
in release builds.
---
 poppy/src/bloom/v2.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index e8f480b..f2e5840 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -571,7 +571,8 @@ impl BloomFilter {
                     * f64::ln(1.0 - (b1.count_ones_in_common(b2) as f64 / b1.bit_len() as f64)))
                     / self.n_hash_buck as f64) as usize
             })
-            .sum())
+            // the estimate is infinite for a bucket with all its bits set
+            .fold(0, usize::saturating_add))
     }
 
     #[inline]
@@ -586,7 +587,8 @@ impl BloomFilter {
                     * f64::ln(1.0 - (b.count_ones() as f64 / b.bit_len() as f64)))
                     / self.n_hash_buck as f64) as u64
             })
-            .sum();
+            // the estimate is infinite for a bucket with all its bits set
+            .fold(0, u64::saturating_add);
     }
 
     /// returns an estimate of the number of element in the filter
-- 
2.43.0


From cb6e860bc5d3172ab9957246611fc2b8ae1d2fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:28 +0000
Subject: [PATCH 10/18] fix: use at least one hash function in optimized
 filters

With a high false positive probability the speed and best levels computed zero
hash functions. Insertions were never counted and the capacity never reached.
---
 poppy/src/bloom/v2.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index f2e5840..7b9e8be 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -303,13 +303,15 @@ impl BloomFilter {
                 n_bucket = n_bucket.next_power_of_two();
                 n_hash_buck =
                     (f64::ln(2.0) * crate::estimate_p(capacity, cache_bit_size) * (bits_per_entry))
-                        .ceil() as u64;
+                        .ceil()
+                        .max(1.0) as u64;
             }
             OptLevel::Best => {
                 cache_bit_size = capacity.next_power_of_two();
                 n_hash_buck =
                     (f64::ln(2.0) * crate::estimate_p(capacity, cache_bit_size) * (bits_per_entry))
-                        .ceil() as u64;
+                        .ceil()
+                        .max(1.0) as u64;
             }
         }
 
-- 
2.43.0


From a727ff974c47f763b62165c8833e71c73d411da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:28 +0000
Subject: [PATCH 11/18] fix: do not overflow when the benchmark size is not
 limited

The bench command turns -s 0 into the biggest number of megabytes, which
overflows when it is converted into bytes.
---
 poppy/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/utils.rs b/poppy/src/utils.rs
index 7fb6ed8..40d1c99 100644
--- a/poppy/src/utils.rs
+++ b/poppy/src/utils.rs
@@ -76,7 +76,7 @@ impl ByteSize {
 
     #[inline(always)]
     pub fn from_mb(mb: usize) -> Self {
-        Self::from_bytes(mb * MEGA)
+        Self::from_bytes(mb.saturating_mul(MEGA))
     }
 
     #[inline(always)]
-- 
2.43.0


From 6447a39960e3334c64aee3089d3064c27cd7609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:19 +0000
Subject: [PATCH 12/18] fix: reject malformed filters instead of panicking on
 them

Sizes found in the header were trusted. A malformed filter could abort the
process with a huge allocation, overflow an offset or divide by zero at the
first query. Insertion could also loop on a huge number of hash functions.
---
 poppy/src/bitset/vec.rs |  5 +++++
 poppy/src/bloom/v1.rs   | 17 +++++++++++++----
 poppy/src/bloom/v2.rs   | 33 ++++++++++++++++++++++++++-------
 poppy/src/utils.rs      |  5 +++++
 4 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/poppy/src/bitset/vec.rs b/poppy/src/bitset/vec.rs
index 9471b84..61c38b6 100644
--- a/poppy/src/bitset/vec.rs
+++ b/poppy/src/bitset/vec.rs
@@ -13,6 +13,11 @@ impl VecBitSet {
         Self(vec![0; byte_size])
     }
 
+    /// Creates a new bitset from its bytes
+    pub(crate) fn from_vec(bytes: Vec<u8>) -> Self {
+        Self(bytes)
+    }
+
     /// Returns true if bitset is empty
     #[inline(always)]
     pub fn is_empty(&self) -> bool {
diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 1f92409..ff314b4 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -6,7 +6,7 @@ use std::{
 use crate::{
     hash::fnv::Fnv1Hasher,
     read_flags,
-    utils::{read_le_f64, read_le_u64},
+    utils::{invalid_data, read_le_f64, read_le_u64},
     Flags, Params,
 };
 
@@ -177,6 +177,12 @@ impl BloomFilter {
         let p = read_le_f64(r)?;
         let n_hash = read_le_u64(r)?;
         let bit_size = read_le_u64(r)?;
+        if bit_size == 0 && cap > 0 {
+            return Err(invalid_data("filter without bits").into());
+        }
+        if n_hash > bit_size {
+            return Err(invalid_data("more hash functions than bits").into());
+        }
         let count = read_le_u64(r)?;
 
         // initializing bitset
@@ -186,10 +192,13 @@ impl BloomFilter {
                 r.seek_relative((u64_size * core::mem::size_of::<u64>() as u64) as i64)?;
                 vec![]
             } else {
-                let mut bitset = vec![0; u64_size as usize];
+                let mut bitset = Vec::new();
+                bitset
+                    .try_reserve_exact(u64_size as usize)
+                    .map_err(|_| invalid_data("too many bits"))?;
                 // reading the bloom filter
-                for i in bitset.iter_mut() {
-                    *i = read_le_u64(r)?;
+                for _ in 0..u64_size {
+                    bitset.push(read_le_u64(r)?);
                 }
                 bitset
             }
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 7b9e8be..48da812 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -10,7 +10,7 @@ use crate::{
     },
     hash::{digest, wyhash::WyHasher, PoppyHash, PoppyHasher},
     read_flags,
-    utils::{read_le_f64, read_le_u64},
+    utils::{invalid_data, read_le_f64, read_le_u64},
     Flags, OptLevel, Params,
 };
 use core::mem::size_of;
@@ -199,6 +199,9 @@ impl BloomFilter {
         }
 
         let n_hash_buck = read_le_u64(r)?;
+        if n_hash_buck > BIT_SET_MOD {
+            return Err(invalid_data("more hash functions than bits in a bucket").into());
+        }
         let count = read_le_u64(r)?;
 
         let cache_bit_size = read_le_u64(r)?;
@@ -208,24 +211,40 @@ impl BloomFilter {
                 r.seek_relative(cache_byte_size as i64)?;
                 VecBitSet::with_bit_capacity(0)
             } else {
-                let mut ic = VecBitSet::with_bit_capacity(cache_bit_size as usize);
-                r.read_exact(ic.as_mut_slice())?;
-                ic
+                // we must not trust the size to allocate memory
+                let mut bytes = Vec::new();
+                r.take(cache_byte_size).read_to_end(&mut bytes)?;
+                if bytes.len() as u64 != cache_byte_size {
+                    return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+                }
+                VecBitSet::from_vec(bytes)
             }
         };
 
         // we read the number of buckets
         let n_buckets = read_le_u64(r)? as usize;
+        if n_buckets == 0 && capacity > 0 {
+            return Err(invalid_data("filter without buckets").into());
+        }
 
         let buckets = {
             if partial {
-                r.seek_relative((n_buckets * core::mem::size_of::<Bucket>()) as i64)?;
+                let byte_size = n_buckets
+                    .checked_mul(core::mem::size_of::<Bucket>())
+                    .and_then(|s| i64::try_from(s).ok())
+                    .ok_or_else(|| invalid_data("too many buckets"))?;
+                r.seek_relative(byte_size)?;
                 vec![]
             } else {
-                let mut buckets = vec![Bucket::new(); n_buckets];
+                let mut buckets = Vec::new();
+                buckets
+                    .try_reserve_exact(n_buckets)
+                    .map_err(|_| invalid_data("too many buckets"))?;
                 // we read all the buckets as byte buffers
-                for bucket in buckets.iter_mut().take(n_buckets) {
+                for _ in 0..n_buckets {
+                    let mut bucket = Bucket::new();
                     r.read_exact(bucket.as_mut_slice())?;
+                    buckets.push(bucket);
                 }
                 buckets
             }
diff --git a/poppy/src/utils.rs b/poppy/src/utils.rs
index 40d1c99..49587a6 100644
--- a/poppy/src/utils.rs
+++ b/poppy/src/utils.rs
@@ -18,6 +18,11 @@ pub(crate) fn read_le_f64<R: Read>(r: &mut R) -> Result<f64, io::Error> {
     Ok(f64::from_le_bytes(bytes))
 }
 
+/// builds the error returned when the data read is not a valid filter
+pub(crate) fn invalid_data(msg: &str) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, msg)
+}
+
 pub enum ByteSize {
     Bytes(usize),
     Kilo(usize),
-- 
2.43.0


From 7e7dba1623440cff17fac02499f3a8c274a46497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:37 +0000
Subject: [PATCH 13/18] fix: do not reserve memory from sizes read in filter
 files

---
 poppy/src/bloom/v1.rs | 4 +---
 poppy/src/bloom/v2.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index ff314b4..963d719 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -192,10 +192,8 @@ impl BloomFilter {
                 r.seek_relative((u64_size * core::mem::size_of::<u64>() as u64) as i64)?;
                 vec![]
             } else {
+                // we must not trust the size to allocate memory
                 let mut bitset = Vec::new();
-                bitset
-                    .try_reserve_exact(u64_size as usize)
-                    .map_err(|_| invalid_data("too many bits"))?;
                 // reading the bloom filter
                 for _ in 0..u64_size {
                     bitset.push(read_le_u64(r)?);
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 48da812..cfaf204 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -236,10 +236,8 @@ impl BloomFilter {
                 r.seek_relative(byte_size)?;
                 vec![]
             } else {
+                // we must not trust the size to allocate memory
                 let mut buckets = Vec::new();
-                buckets
-                    .try_reserve_exact(n_buckets)
-                    .map_err(|_| invalid_data("too many buckets"))?;
                 // we read all the buckets as byte buffers
                 for _ in 0..n_buckets {
                     let mut bucket = Bucket::new();
-- 
2.43.0


From 0201aa10703e06640405e08d7b1bdd54bd182ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:28 +0000
Subject: [PATCH 14/18] fix: metadata-only load accepted filters cut inside
 their bits

---
 poppy/src/bloom/v1.rs |  4 ++--
 poppy/src/bloom/v2.rs |  7 +++----
 poppy/src/utils.rs    | 13 ++++++++++++-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 963d719..3b2239e 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -6,7 +6,7 @@ use std::{
 use crate::{
     hash::fnv::Fnv1Hasher,
     read_flags,
-    utils::{invalid_data, read_le_f64, read_le_u64},
+    utils::{invalid_data, read_le_f64, read_le_u64, skip},
     Flags, Params,
 };
 
@@ -189,7 +189,7 @@ impl BloomFilter {
         let u64_size = f64::ceil((bit_size as f64) / 64.0) as u64;
         let bitset = {
             if partial {
-                r.seek_relative((u64_size * core::mem::size_of::<u64>() as u64) as i64)?;
+                skip(r, u64_size * core::mem::size_of::<u64>() as u64)?;
                 vec![]
             } else {
                 // we must not trust the size to allocate memory
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index cfaf204..f8ae065 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -10,7 +10,7 @@ use crate::{
     },
     hash::{digest, wyhash::WyHasher, PoppyHash, PoppyHasher},
     read_flags,
-    utils::{invalid_data, read_le_f64, read_le_u64},
+    utils::{invalid_data, read_le_f64, read_le_u64, skip},
     Flags, OptLevel, Params,
 };
 use core::mem::size_of;
@@ -208,7 +208,7 @@ impl BloomFilter {
         let cache_byte_size = byte_cap_from_bit_cap(cache_bit_size as usize) as u64;
         let index_cache = {
             if partial {
-                r.seek_relative(cache_byte_size as i64)?;
+                skip(r, cache_byte_size)?;
                 VecBitSet::with_bit_capacity(0)
             } else {
                 // we must not trust the size to allocate memory
@@ -231,9 +231,8 @@ impl BloomFilter {
             if partial {
                 let byte_size = n_buckets
                     .checked_mul(core::mem::size_of::<Bucket>())
-                    .and_then(|s| i64::try_from(s).ok())
                     .ok_or_else(|| invalid_data("too many buckets"))?;
-                r.seek_relative(byte_size)?;
+                skip(r, byte_size as u64)?;
                 vec![]
             } else {
                 // we must not trust the size to allocate memory
diff --git a/poppy/src/utils.rs b/poppy/src/utils.rs
index 49587a6..464434e 100644
--- a/poppy/src/utils.rs
+++ b/poppy/src/utils.rs
@@ -2,7 +2,7 @@ use statrs::statistics::Statistics;
 use std::{
     fmt::Display,
     hash::Hash,
-    io::{self, Read},
+    io::{self, BufReader, Read, Seek},
     time::Duration,
 };
 
@@ -23,6 +23,17 @@ pub(crate) fn invalid_data(msg: &str) -> io::Error {
     io::Error::new(io::ErrorKind::InvalidData, msg)
 }
 
+/// skips n bytes, an error is returned if there are not as many bytes left
+pub(crate) fn skip<R: Read + Seek>(r: &mut BufReader<R>, n: u64) -> Result<(), io::Error> {
+    if n > 0 {
+        let off = i64::try_from(n - 1).map_err(|_| invalid_data("too many bytes to skip"))?;
+        r.seek_relative(off)?;
+        // it is possible to seek after the end but not to read there
+        r.read_exact(&mut [0u8])?;
+    }
+    Ok(())
+}
+
 pub enum ByteSize {
     Bytes(usize),
     Kilo(usize),
-- 
2.43.0


From fc65698c9d4abff9562a114c5dc93fccd3dd870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:07 +0000
Subject: [PATCH 15/18] fix: benchmark of zero runs panicked

---
 poppy/src/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/poppy/src/utils.rs b/poppy/src/utils.rs
index 464434e..f13f0d1 100644
--- a/poppy/src/utils.rs
+++ b/poppy/src/utils.rs
@@ -157,6 +157,11 @@ pub fn benchmark<F: FnMut()>(mut f: F, run: u32) -> Duration {
         times.push((end_time - start_time).as_secs_f64())
     }
 
+    if run == 0 {
+        // there is no mean of nothing
+        return Duration::ZERO;
+    }
+
     if run == 1 {
         return Duration::from_secs_f64(times[0]);
     }
-- 
2.43.0


From 66f738ab78851894e16f36e4a449501c5434ebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:19 +0000
Subject: [PATCH 16/18] fix: create lost the lines of a dataset that is a pipe

---
 poppy/src/bin/poppy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index e732a7b..925892b 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -201,6 +201,10 @@ fn count_lines_parallel<P: AsRef<Path> + Clone>(
         handles.push(thread::spawn(move || {
             let mut count = 0usize;
             for f in batch {
+                // the file is read again to insert its lines, so nothing would be left of a pipe
+                if !f.metadata()?.is_file() {
+                    return Err(anyhow!("not a regular file: {}", f.display()));
+                }
                 let of = File::open(f)?;
                 for line in io::BufReader::new(of).lines() {
                     line?;
-- 
2.43.0


From 7ece150690675b863343a652afa64de18fdb3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:29 +0000
Subject: [PATCH 17/18] fix: bench counted entries changed into other entries
 as false positives

---
 poppy/src/bin/poppy.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index 925892b..f6eb8ea 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -510,8 +510,8 @@ fn main() -> Result<(), anyhow::Error> {
                 // we compute real fpp (no need to benchmark this)
                 mutated_lines.iter().for_each(|(m, l)| {
                     let is_in_bf = b.contains_bytes(l);
-                    // data has been mutated
-                    if *m {
+                    // data has been mutated and is not an entry anymore
+                    if *m && !marked.contains(&wyhash::wyhash(l.as_bytes(), 42)) {
                         if is_in_bf {
                             stats.inc_fp()
                         } else {
-- 
2.43.0


From 3413a693bfab3f43daecad2bdd8ebde7c57fa510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:29 +0000
Subject: [PATCH 18/18] fix: bench accepted any filter when a condition had no
 absent entry

---
 poppy/src/bin/poppy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index f6eb8ea..f82e294 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -544,7 +544,10 @@ fn main() -> Result<(), anyhow::Error> {
                 println!("\tfp rate = {:3}", stats.fp_rate());
                 println!();
 
-                fpps.push(stats.fp_rate());
+                // there is no rate without any query of an absent entry
+                if !stats.fp_rate().is_nan() {
+                    fpps.push(stats.fp_rate());
+                }
                 queries_per_seconds.push(qps);
             }
 
-- 
2.43.0

