From db2e9fa9cbaaf10495ca7db59378c804f80fd890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 01/14] fix: keep the last entry when the element size is a
 multiple of the plaintext bits

---
 src/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0d389d5..fa8beeb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -230,7 +230,12 @@ pub mod format {
     entry_bit_len: usize,
     total_bit_len: usize,
   ) -> Vec<u8> {
-    let remainder = total_bit_len % entry_bit_len;
+    // The last entry holds the bits that are left over, or is full if
+    // there are none
+    let remainder = match total_bit_len % entry_bit_len {
+      0 => entry_bit_len,
+      r => r,
+    };
     let mut bits = Vec::with_capacity(entry_bit_len * v.len());
     for i in 0..v.len() {
       // We extract either the full amount of bits, or the remainder from
-- 
2.43.0


From 0567666b91394e069b45bda14dac4edc2ed50a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 02/14] fix: add the query indicator modulo 2^32 instead of
 failing when the masked value wraps

---
 src/api.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 4fc5465..211a06d 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -9,9 +9,7 @@ pub use crate::db::{BaseParams, CommonParams, DatabaseMatrix};
 use crate::db::{FilterParams, KVDatabase, KVParams, KeyValue};
 use crate::db::{IndexDatabase, IndexParams};
 
-use crate::errors::{
-  ErrorOverflownAdd, ErrorQueryParamsReused, ResultBoxedError,
-};
+use crate::errors::{ErrorQueryParamsReused, ResultBoxedError};
 pub use crate::utils::format::*;
 use crate::utils::lwe::*;
 use crate::utils::matrices::*;
@@ -284,12 +282,7 @@ impl QueryParams<IndexDatabase, EmptyAuxParams> {
     let query_indicator = get_rounding_factor(self.plaintext_bits);
     let mut lhs = Vec::new();
     lhs.clone_from(&self.lhs.clone());
-    let (result, check) = lhs[row_index].overflowing_add(query_indicator);
-    if !check {
-      lhs[row_index] = result;
-    } else {
-      return Err(Box::new(ErrorOverflownAdd {}));
-    }
+    lhs[row_index] = lhs[row_index].wrapping_add(query_indicator);
     Ok(Query(lhs))
   }
 
-- 
2.43.0


From 1e24c2910ae9b210a8881355f4d8b3f7694cdb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 03/14] fix: hash keys whose words are permutations of each
 other differently

---
 bff-modp/src/prelude/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bff-modp/src/prelude/mod.rs b/bff-modp/src/prelude/mod.rs
index a524363..d49bfaa 100644
--- a/bff-modp/src/prelude/mod.rs
+++ b/bff-modp/src/prelude/mod.rs
@@ -50,15 +50,15 @@ pub fn mix256<'a>(key: &[u64; 4], seed: &[u8]) -> u64 {
     for i in 0..4 {
         seeds[i] = u64::from_le_bytes(seed[8 * i..8 * (i + 1)].try_into().unwrap());
     }
-    key.into_iter()
-        .map(|k| {
-            let mut mixed = 0u64;
-            for i in 0..4 {
-                mixed = murmur3::mix64(mixed.overflowing_add(mix(*k, seeds[i])).0);
-            }
-            mixed
-        })
-        .fold(0, |acc, r| acc.overflowing_add(r).0)
+    // Every word is mixed into the result of the previous ones, so that the order of the words
+    // matters: keys that are permutations of each other must not collide.
+    key.into_iter().fold(0u64, |acc, k| {
+        let mut mixed = acc;
+        for i in 0..4 {
+            mixed = murmur3::mix64(mixed.overflowing_add(mix(*k, seeds[i])).0);
+        }
+        mixed
+    })
 }
 
 /// Computes a fingerprint.
-- 
2.43.0


From aaff5c74ef40faa07a65d2d9f2e2dbf0a725ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 04/14] fix: build key-value databases with a new seed when one
 does not work for the keys

---
 bff-modp/src/bfusep32.rs |  7 +++---
 src/db/kv.rs             | 48 +++++++++++++++++++++++-----------------
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index e9351ab..04af657 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -73,18 +73,19 @@ impl Filter<u64> for BinaryFuseP32 {
 }
 
 impl BinaryFuseP32 {
-    /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a slice), `data`, `ptxt_mod`
+    /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a slice), `data`, `ptxt_mod`.
+    /// The result is determined by the `seed` and the `keys`: after an error, try again with a new `seed`.
     pub fn from_slice(seed: [u8; 32], keys: &[[u64; 4]], data: &[u32], label: u64, ptxt_mod: u64) -> Result<Self, &'static str> {
         if data.len() != keys.len() {
             return Err("The data should correspond to the number of keys");
         }
-        bfusep_from_impl!(seed, keys, data, ptxt_mod, label, max iter 100_000)
+        bfusep_from_impl!(seed, keys, data, ptxt_mod, label, max iter 1)
     }
 
     /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a vector), `data`, `ptxt_mod`
     pub fn from_vec(seed: [u8; 32], keys: Vec<[u64; 4]>, data: &[u32], label: u64, ptxt_mod: u64) -> Result<Self, &'static str> {
         let slice = keys.as_slice();
-        bfusep_from_impl!(seed, slice, data, ptxt_mod, label, max iter 100_000)
+        bfusep_from_impl!(seed, slice, data, ptxt_mod, label, max iter 1)
     }
 
     /// Retrieves the `data` modulo the plaintext modulus for a given `key`
diff --git a/src/db/kv.rs b/src/db/kv.rs
index 6badfc3..53dd4a2 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -13,6 +13,9 @@ use crate::utils::random::generate_seed;
 
 use xorf::BinaryFuseP32;
 
+/// The number of filter seeds that are tried for a set of keys
+const MAX_SEEDS: usize = 1000;
+
 #[derive(Clone, Debug, Serialize, Deserialize)]
 pub struct KeyValue {
   pub key: [u64; 4],
@@ -49,27 +52,32 @@ impl StorageFilters {
   ) -> ResultBoxedError<StorageFilters> {
     let keys: Vec<[u64; 4]> = kvs.iter().map(|kv| kv.key).collect();
     let mut seed = [0u8; 32];
-    OsRng.fill_bytes(&mut seed);
-    let filters: Vec<BinaryFuseP32> = (0..row_width)
-      .map(|i| {
-        let column: Vec<u32> = kvs.iter().map(|kv| kv.value[i]).collect();
-        BinaryFuseP32::from_slice(
+    // Some seeds do not work for some sets of keys: those are replaced
+    for _ in 0..MAX_SEEDS {
+      OsRng.fill_bytes(&mut seed);
+      let built: Result<Vec<BinaryFuseP32>, &'static str> = (0..row_width)
+        .map(|i| {
+          let column: Vec<u32> = kvs.iter().map(|kv| kv.value[i]).collect();
+          BinaryFuseP32::from_slice(
+            seed,
+            &keys,
+            &column,
+            i as u64,
+            2u64.pow(plaintext_bits as u32),
+          )
+        })
+        .collect();
+      if let Ok(filters) = built {
+        return Ok(StorageFilters {
           seed,
-          &keys,
-          &column,
-          i as u64,
-          2u64.pow(plaintext_bits as u32),
-        )
-        .unwrap()
-      })
-      .collect();
-    Ok(StorageFilters {
-      filters: filters.clone(),
-      seed,
-      segment_length: filters[0].segment_length,
-      segment_length_mask: filters[0].segment_length_mask,
-      segment_count_length: filters[0].segment_count_length,
-    })
+          segment_length: filters[0].segment_length,
+          segment_length_mask: filters[0].segment_length_mask,
+          segment_count_length: filters[0].segment_count_length,
+          filters,
+        });
+      }
+    }
+    Err("No seed was found that works for this set of keys".into())
   }
 
   fn get_columns(&self) -> Vec<Vec<u32>> {
-- 
2.43.0


From 6a2e68e9e9c99e522c51f1717cd7f7c6c6ddabf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 05/14] fix: compute mod-p filter entries modulo the plaintext
 modulus, also where it is no power of two

---
 bff-modp/src/bfusep32.rs       |  2 +-
 bff-modp/src/prelude/bfusep.rs | 20 +++++++++++---------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index 04af657..c732f9c 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -95,7 +95,7 @@ impl BinaryFuseP32 {
 
     /// Returns the `fingerprints`, of the filter, but modulo the plaintetx modulus
     pub fn get_fingerprints_mod(&self) -> Vec<u32> {
-        self.fingerprints.into_iter().map(|f| f % (self.ptxt_mod as u32)).collect()
+        self.fingerprints.into_iter().map(|f| (*f as u64 % self.ptxt_mod) as u32).collect()
     }
 
     /// Static function that retrieves the hash function evaluations for a given storage filter
diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index 0b85325..1a61653 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -206,12 +206,12 @@ macro_rules! bfusep_from_impl(
 		            h012[2] = index3;
 		            h012[3] = h012[0];
 		            h012[4] = h012[1];
-		        let entry =
-                (data % ($ptxt_mod as u32))
-                .wrapping_sub(fingerprints[h012[found + 1] as usize])
-                .wrapping_sub(fingerprints[h012[found + 2] as usize]) % ($ptxt_mod as u32);
-                let mask = (mix(hash, $label) % $ptxt_mod) as u32;
-                fingerprints[h012[found] as usize] = entry.wrapping_sub(mask) % ($ptxt_mod as u32);
+                let mask = mix(hash, $label) % $ptxt_mod;
+                let others = fingerprints[h012[found + 1] as usize] as u64 % $ptxt_mod
+                    + fingerprints[h012[found + 2] as usize] as u64 % $ptxt_mod
+                    + mask;
+                let data = *data as u64 % $ptxt_mod;
+                fingerprints[h012[found] as usize] = ((data + 3 * $ptxt_mod - others) % $ptxt_mod) as u32;
             }
 
             Ok(Self {
@@ -242,9 +242,11 @@ macro_rules! bfusep_retrieve_impl(
             };
             let hash = mix256($key, &$self.seed);
             let (h0, h1, h2) = hash_of_hash(hash, $self.segment_length, $self.segment_length_mask, $self.segment_count_length);
-            let data = $self.fingerprints[h0 as usize].wrapping_add($self.fingerprints[h1 as usize]).wrapping_add($self.fingerprints[h2 as usize]);
-            let mask = (mix(hash, $label) % $self.ptxt_mod) as u32;
-            data.wrapping_add(mask) % ($self.ptxt_mod as u32)
+            let data = $self.fingerprints[h0 as usize] as u64 % $self.ptxt_mod
+                + $self.fingerprints[h1 as usize] as u64 % $self.ptxt_mod
+                + $self.fingerprints[h2 as usize] as u64 % $self.ptxt_mod;
+            let mask = mix(hash, $label) % $self.ptxt_mod;
+            ((data + mask) % $self.ptxt_mod) as u32
         }
     };
 );
-- 
2.43.0


From a2719d3fb71ea6a0491302fc9d4a12435d2e7f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 06/14] fix: refuse queries of the wrong length with an error
 instead of aborting

---
 src/api.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/api.rs b/src/api.rs
index 211a06d..714604a 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -9,11 +9,25 @@ pub use crate::db::{BaseParams, CommonParams, DatabaseMatrix};
 use crate::db::{FilterParams, KVDatabase, KVParams, KeyValue};
 use crate::db::{IndexDatabase, IndexParams};
 
-use crate::errors::{ErrorQueryParamsReused, ResultBoxedError};
+use crate::errors::{
+  ErrorQueryParamsReused, ErrorUnexpectedInputSize, ResultBoxedError,
+};
 pub use crate::utils::format::*;
 use crate::utils::lwe::*;
 use crate::utils::matrices::*;
 
+/// A query must have one entry for every row of the database matrix
+fn check_query_len(q: &[u32], height: usize) -> ResultBoxedError<()> {
+  if q.len() != height {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "query length: {}, matrix height: {}",
+      q.len(),
+      height,
+    ))));
+  }
+  Ok(())
+}
+
 /// A `Shard` is an instance of a database, where each row corresponds
 /// to a single element, that has been preprocessed by the server.
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -68,6 +82,7 @@ impl Shard {
   /// client query
   pub fn respond(&self, q: &Query) -> ResultBoxedError<Vec<u8>> {
     let q = q.as_slice();
+    check_query_len(q, self.db.get_matrix_height())?;
     let resp = Response(
       (0..self.db.get_row_width_self())
         .map(|i| self.db.vec_mult(q, i))
@@ -214,6 +229,7 @@ impl KVShard {
   /// Produces a serialized response (base64-encoded) to a serialized
   /// client query
   pub fn respond(&self, q: &Query) -> ResultBoxedError<Vec<u8>> {
+    check_query_len(q.as_slice(), self.db.get_matrix_height())?;
     let resp = Response(
       (0..self.db.get_row_width_self())
         .map(|i| self.db.vec_mult(q.as_slice(), i))
-- 
2.43.0


From 9493f618b292768b4b57dcedf9eaebfe93edc031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 07/14] fix: report unreadable or malformed JSON database files
 as errors instead of aborting

---
 src/api.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 714604a..0cc3a3b 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -48,8 +48,8 @@ impl Shard {
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
     let file_contents: String =
-      fs::read_to_string(file_path).unwrap().parse().unwrap();
-    let elements: Vec<String> = serde_json::from_str(&file_contents).unwrap();
+      fs::read_to_string(file_path)?.parse()?;
+    let elements: Vec<String> = serde_json::from_str(&file_contents)?;
     Shard::from_base64_strings(&elements, lwe_dim, m, elem_size, plaintext_bits)
   }
 
@@ -167,8 +167,8 @@ impl KVShard {
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
     let file_contents: String =
-      fs::read_to_string(file_path).unwrap().parse().unwrap();
-    let enc_kvs: Vec<EncodedKV> = serde_json::from_str(&file_contents).unwrap();
+      fs::read_to_string(file_path)?.parse()?;
+    let enc_kvs: Vec<EncodedKV> = serde_json::from_str(&file_contents)?;
     let keys: Vec<String> = enc_kvs.iter().map(|e| e.key.clone()).collect();
     let values: Vec<String> = enc_kvs.iter().map(|e| e.value.clone()).collect();
     KVShard::from_base64_strings(
-- 
2.43.0


From 89b37d0bbad019ea93a6fc8b65741e43b74fec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 08/14] fix: write every field that IndexParams::load needs to
 the parameter file

---
 src/db/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 0a76fbc..b98dca0 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -50,8 +50,13 @@ pub trait BaseParams {
   /// Writes the params struct as JSON to file
   fn write_to_file(&self, path: &str) -> ResultBoxedError<()> {
     let json = json!({
+      "dim": self.get_dim(),
+      "m": self.get_total_records(),
+      "public_seed": self.get_public_seed(),
       "lhs_seed": self.get_public_seed(),
       "rhs": self.get_rhs(),
+      "elem_size": self.get_elem_size(),
+      "plaintext_bits": self.get_plaintext_bits(),
     });
     Ok(serde_json::to_writer(&fs::File::create(path)?, &json)?)
   }
-- 
2.43.0


From db4e334a453ff6d9b20a7c80e40bbda1ca2149f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 09/14] fix: refuse key sets too small for a fuse filter with
 an error instead of aborting

---
 bff-modp/src/prelude/fuse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bff-modp/src/prelude/fuse.rs b/bff-modp/src/prelude/fuse.rs
index fcaf571..d51bbc7 100644
--- a/bff-modp/src/prelude/fuse.rs
+++ b/bff-modp/src/prelude/fuse.rs
@@ -90,6 +90,10 @@ macro_rules! fuse_from_impl(
             let capacity = (FUSE_OVERHEAD * num_keys as f64) as usize;
             let capacity = capacity / SLOTS * SLOTS;
             let segment_length = capacity / SLOTS;
+            if segment_length == 0 {
+                // Too few keys to give every slot an entry.
+                return Err("Failed to construct fuse filter.");
+            }
 
             #[allow(non_snake_case)]
             let mut H: Box<[HSet]> = make_block!(with capacity sets);
-- 
2.43.0


From 0155e41158054c5457f3dca78a01530c954ad1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 10/14] fix: refuse to build a mod-p filter in which two keys
 share a hash but not a value

---
 bff-modp/src/prelude/bfusep.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index 1a61653..e5a4437 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -86,7 +86,9 @@ macro_rules! bfusep_from_impl(
                         segment_index &= (1 << block_bits) - 1;
                     }
                     reverse_order[start_pos[segment_index as usize] as usize] = hash;
-                    hm_keys.insert(hash, $data[i]);
+                    if hm_keys.insert(hash, $data[i]).map_or(false, |other| other != $data[i]) {
+                        return Err("Two keys have the same hash under this seed.");
+                    }
                     start_pos[segment_index as usize] += 1;
                 }
 
-- 
2.43.0


From ec772536f04c758ccba6deb14ea3cb128b87780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 11/14] fix: treat more than 63 keys in one slot of a binary
 fuse filter as a failed attempt

---
 bff-modp/src/prelude/bfuse.rs  | 24 +++++++++++++++++-------
 bff-modp/src/prelude/bfusep.rs | 15 ++++++++-------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/bff-modp/src/prelude/bfuse.rs b/bff-modp/src/prelude/bfuse.rs
index a2f2430..2906d33 100644
--- a/bff-modp/src/prelude/bfuse.rs
+++ b/bff-modp/src/prelude/bfuse.rs
@@ -147,13 +147,13 @@ macro_rules! bfuse_from_impl(
                     let hash = reverse_order[i];
                     let (index1, index2, index3) = hash_of_hash(hash, segment_length, segment_length_mask, segment_count_length);
                     let (index1, index2, index3) = (index1 as usize, index2 as usize, index3 as usize);
-                    t2count[index1] += 4;
+                    t2count[index1] = t2count[index1].wrapping_add(4);
                     // t2count[index1] ^= 0; NOOP
                     t2hash[index1] ^= hash;
-			              t2count[index2] += 4;
+			              t2count[index2] = t2count[index2].wrapping_add(4);
 			              t2count[index2] ^= 1;
 			              t2hash[index2] ^= hash;
-			              t2count[index3] += 4;
+			              t2count[index3] = t2count[index3].wrapping_add(4);
 			              t2count[index3] ^= 2;
 			              t2hash[index3] ^= hash;
 
@@ -162,20 +162,30 @@ macro_rules! bfuse_from_impl(
                            ((t2hash[index2] == 0) && (t2count[index2] == 8)) ||
                            ((t2hash[index3] == 0) && (t2count[index3] == 8)) {
                                 duplicates += 1;
-                                t2count[index1] -= 4;
+                                t2count[index1] = t2count[index1].wrapping_sub(4);
                                 // t2count[index1] ^= 0; NOOP
                                 t2hash[index1] ^= hash;
-                                t2count[index2] -= 4;
+                                t2count[index2] = t2count[index2].wrapping_sub(4);
                                 t2count[index2] ^= 1;
 					                      t2hash[index2] ^= hash;
-					                      t2count[index3] -= 4;
+					                      t2count[index3] = t2count[index3].wrapping_sub(4);
 					                      t2count[index3] ^= 2;
 					                      t2hash[index3] ^= hash;
                         }
                     }
-                    error = t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
+                    // More than 63 keys in one slot wrap its count.
+                    error |= t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
                 }
                 if error {
+                    // Reset for a retry.
+                    for i in 0..size {
+                        reverse_order[i] = 0;
+                    }
+                    for i in 0..capacity {
+                        t2count[i] = 0;
+                        t2hash[i] = 0;
+                    }
+                    seed = splitmix64(&mut rng);
                     continue;
                 }
 
diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index e5a4437..042e209 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -98,13 +98,13 @@ macro_rules! bfusep_from_impl(
                     let hash = reverse_order[i];
                     let (index1, index2, index3) = hash_of_hash(hash, segment_length, segment_length_mask, segment_count_length);
                     let (index1, index2, index3) = (index1 as usize, index2 as usize, index3 as usize);
-                    t2count[index1] += 4;
+                    t2count[index1] = t2count[index1].wrapping_add(4);
                     // t2count[index1] ^= 0; NOOP
                     t2hash[index1] ^= hash;
-			              t2count[index2] += 4;
+			              t2count[index2] = t2count[index2].wrapping_add(4);
 			              t2count[index2] ^= 1;
 			              t2hash[index2] ^= hash;
-			              t2count[index3] += 4;
+			              t2count[index3] = t2count[index3].wrapping_add(4);
 			              t2count[index3] ^= 2;
 			              t2hash[index3] ^= hash;
 
@@ -113,18 +113,19 @@ macro_rules! bfusep_from_impl(
                            ((t2hash[index2] == 0) && (t2count[index2] == 8)) ||
                            ((t2hash[index3] == 0) && (t2count[index3] == 8)) {
                                 duplicates += 1;
-                                t2count[index1] -= 4;
+                                t2count[index1] = t2count[index1].wrapping_sub(4);
                                 // t2count[index1] ^= 0; NOOP
                                 t2hash[index1] ^= hash;
-                                t2count[index2] -= 4;
+                                t2count[index2] = t2count[index2].wrapping_sub(4);
                                 t2count[index2] ^= 1;
 					                      t2hash[index2] ^= hash;
-					                      t2count[index3] -= 4;
+					                      t2count[index3] = t2count[index3].wrapping_sub(4);
 					                      t2count[index3] ^= 2;
 					                      t2hash[index3] ^= hash;
                         }
                     }
-                    error = t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
+                    // More than 63 keys in one slot wrap its count.
+                    error |= t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
                 }
                 if error {
                     continue;
-- 
2.43.0


From 04368609d0ac3a0cc676e3f6a3160030cebfd7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 12/14] fix: write the filter parameters of a key-value
 database to the parameter file

---
 src/db/kv.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/db/kv.rs b/src/db/kv.rs
index 53dd4a2..f6c197a 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -313,6 +313,14 @@ impl KVParams {
   }
 }
 impl BaseParams for KVParams {
+  /// Writes the params struct, including the filter parameters that
+  /// clients need, as JSON to file
+  fn write_to_file(&self, path: &str) -> ResultBoxedError<()> {
+    let mut json = json!(self);
+    json["lhs_seed"] = json!(self.get_public_seed());
+    Ok(serde_json::to_writer(&fs::File::create(path)?, &json)?)
+  }
+
   fn get_total_records(&self) -> usize {
     self.m
   }
-- 
2.43.0


From 064603e152e21af32517b9ed4e1b3ce6b435c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 13/14] fix: report missing or too short records as errors
 instead of aborting or padding them

---
 src/db/index.rs | 19 +++++++++++++++++--
 src/db/kv.rs    | 12 +++++++++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/db/index.rs b/src/db/index.rs
index e20a4c1..ca822c6 100644
--- a/src/db/index.rs
+++ b/src/db/index.rs
@@ -5,7 +5,7 @@ use serde::{Deserialize, Serialize};
 use serde_json::json;
 
 use crate::db::{BaseParams, DatabaseMatrix};
-use crate::errors::ResultBoxedError;
+use crate::errors::{ErrorUnexpectedInputSize, ResultBoxedError};
 use crate::utils::format::*;
 use crate::utils::matrices::*;
 use crate::utils::random::generate_seed;
@@ -174,12 +174,20 @@ impl BaseParams for IndexParams {
 
 fn construct_row(
   element: &str,
+  elem_size: usize,
   plaintext_bits: usize,
   row_width: usize,
 ) -> ResultBoxedError<Vec<u32>> {
   let mut row = Vec::with_capacity(row_width);
   let bytes = base64::decode(element)?;
   let bits = bytes_to_bits_le(&bytes);
+  if bits.len() < elem_size {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "element has {} bits, expected {}",
+      bits.len(),
+      elem_size
+    ))));
+  }
   for i in 0..row_width {
     let end_bound = (i + 1) * plaintext_bits;
     if end_bound < bits.len() {
@@ -197,10 +205,17 @@ fn construct_rows(
   elem_size: usize,
   plaintext_bits: usize,
 ) -> ResultBoxedError<Vec<Vec<u32>>> {
+  if elements.len() < m {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "{} elements, expected {}",
+      elements.len(),
+      m
+    ))));
+  }
   let row_width = IndexDatabase::get_row_width(elem_size, plaintext_bits);
 
   let result = (0..m).map(|i| -> ResultBoxedError<Vec<u32>> {
-    construct_row(&elements[i], plaintext_bits, row_width)
+    construct_row(&elements[i], elem_size, plaintext_bits, row_width)
   });
 
   result.collect()
diff --git a/src/db/kv.rs b/src/db/kv.rs
index f6c197a..cc3eeaf 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -6,7 +6,7 @@ use serde_json::json;
 
 use crate::db::{BaseParams, DatabaseMatrix};
 
-use crate::errors::ResultBoxedError;
+use crate::errors::{ErrorUnexpectedInputSize, ResultBoxedError};
 use crate::utils::format::*;
 use crate::utils::matrices::*;
 use crate::utils::random::generate_seed;
@@ -132,6 +132,9 @@ impl KVDatabase {
     elem_size: usize,
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
+    if kvs.is_empty() {
+      return Err("A key-value database needs at least one key".into());
+    }
     let row_width = kvs[0].value.len();
     let filters = StorageFilters::from_kvs(kvs, row_width, plaintext_bits)?;
 
@@ -259,6 +262,13 @@ fn construct_row(
   let mut row = Vec::with_capacity(row_width);
   let bytes = base64::decode(element)?;
   let bits = bytes_to_bits_le(&bytes);
+  if bits.len() < elem_size {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "value has {} bits, expected {}",
+      bits.len(),
+      elem_size
+    ))));
+  }
   for i in 0..row_width {
     let end_bound = (i + 1) * plaintext_bits;
     if end_bound < bits.len() {
-- 
2.43.0


From 90d5387076e2405f8968cd01e07a7e6e5a029178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 14/14] fix: report repeated keys of a key-value database as an
 error

---
 src/db/kv.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/db/kv.rs b/src/db/kv.rs
index cc3eeaf..4a9208f 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -1,3 +1,4 @@
+use std::collections::HashSet;
 use std::fs;
 
 use rand_core::{OsRng, RngCore};
@@ -135,6 +136,10 @@ impl KVDatabase {
     if kvs.is_empty() {
       return Err("A key-value database needs at least one key".into());
     }
+    let distinct: HashSet<&[u64; 4]> = kvs.iter().map(|kv| &kv.key).collect();
+    if distinct.len() != kvs.len() {
+      return Err("The keys of a key-value database must be distinct".into());
+    }
     let row_width = kvs[0].value.len();
     let filters = StorageFilters::from_kvs(kvs, row_width, plaintext_bits)?;
 
-- 
2.43.0

