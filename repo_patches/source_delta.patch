From a73c8c3190c04e3b2f00431f63dbec3f1dc71b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 01/20] fix: use the largest hash_bits-bit value when checking
 near-uniformity

---
 distributed_vector_ole/internal/scalar_helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 897b3de..198932f 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -131,7 +131,7 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     }
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value >>= 128 - hash_bits;
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
@@ -157,7 +157,7 @@ struct ScalarHelperImpl<NTL::zz_p> {
                                           // to fit in a long.
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value >>= 128 - hash_bits;
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
-- 
2.43.0


From 24fb35ce0e582c9594966aa750dbef50bb14c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 02/20] fix: never map hashes directly into moduli wider than
 the hash

---
 distributed_vector_ole/internal/scalar_helpers.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 198932f..d6b0c27 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -21,6 +21,8 @@
 // types to be used with the Vector OLE generator. To add support for other
 // types, add a matching template specialization of ScalarHelper.
 
+#include <algorithm>
+
 #include "NTL/ZZ_p.h"
 #include "NTL/lzz_p.h"
 #include "NTL/vec_ZZ_p.h"
@@ -123,10 +125,13 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     // Check that when reducing an absl::uint128 modulo T::modulus(), the result
     // is nearly uniform, i.e., the probability for any set of results is at
     // most 2^-statistical_security higher than in a uniform distribution.
+    if (NTL::ZZ_p::modulus() > NTL::power2_ZZ(std::min(hash_bits, 128))) {
+      return false;  // There are fewer hash values than residue classes.
+    }
     uint64_t modulus_low = NTL::conv<uint64_t>(NTL::ZZ_p::modulus());
     uint64_t modulus_high = NTL::conv<uint64_t>(NTL::ZZ_p::modulus() >> 64);
     absl::uint128 modulus = absl::MakeUint128(modulus_high, modulus_low);
-    if (modulus == 0) {  // Modulus is a multiple of 2**128
+    if (modulus == 0) {  // Modulus is 2**128
       return true;
     }
     absl::uint128 max_value = absl::Uint128Max();
-- 
2.43.0


From 346b01f174e39e694812a3add4f5279d723259bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 03/20] verif: allow verification builds to scale down the
 reseed interval

---
 distributed_vector_ole/aes_uniform_bit_generator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.h b/distributed_vector_ole/aes_uniform_bit_generator.h
index 7aa65ed..01e881d 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.h
+++ b/distributed_vector_ole/aes_uniform_bit_generator.h
@@ -23,7 +23,11 @@ namespace distributed_vector_ole {
 class AESUniformBitGenerator {
  public:
   using result_type = uint64_t;
+#if defined(DVO_VERIF) && defined(DVO_VERIF_RESEED_INTERVAL)
+  static const int64_t kReseedInterval = DVO_VERIF_RESEED_INTERVAL;
+#else
   static const int64_t kReseedInterval = (1ll << 48);
+#endif
   static const int kStateSize = 32;
   static const int kDefaultBufferSize = (1 << 20) / sizeof(result_type);
 
-- 
2.43.0


From f58647c543a60d3389b1ee5266fcf0756aa8b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 04/20] fix: do not read the generator's nonce through a
 misaligned pointer

---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index a937610..0b9b080 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -1,5 +1,6 @@
 #include "distributed_vector_ole/aes_uniform_bit_generator.h"
 
+#include <cstring>
 #include <stdexcept>
 
 #include "absl/strings/str_cat.h"
@@ -35,8 +36,8 @@ mpc_utils::Status AESUniformBitGenerator::seed(absl::Span<const uint8_t> seed) {
                &expanded_key_)) {  // Use first 16 bytes of seed as key.
     return mpc_utils::InternalError(ERR_reason_error_string(ERR_get_error()));
   }
-  nonce_ = *(reinterpret_cast<const absl::uint128 *>(
-      seed.data() + 16));  // Use second 16 bytes of seed as nonce.
+  // Use second 16 bytes of seed as nonce. `seed` might not be aligned.
+  std::memcpy(&nonce_, seed.data() + 16, sizeof(nonce_));
   counter_ = 0;            // Reset counter.
   elements_used_ = static_cast<int64_t>(buffer_.size());  // Reset buffer.
   return mpc_utils::OkStatus();
-- 
2.43.0


From 76bc3107781215b528fb69824c2aea07baff4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 05/20] fix: round odd generator buffer sizes up so that every
 element is randomized

---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index 0b9b080..a104a4a 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -11,9 +11,9 @@
 namespace distributed_vector_ole {
 
 AESUniformBitGenerator::AESUniformBitGenerator(int64_t buffer_size)
-    : buffer_(buffer_size),  // Make sure buffer size is even.
+    : buffer_(buffer_size + buffer_size % 2),  // Make sure buffer size is even.
       elements_used_(
-          buffer_size)  // All elements are marked as used in the beginning.
+          buffer_.size())  // All elements are marked as used in the beginning.
 {}
 
 mpc_utils::StatusOr<AESUniformBitGenerator> AESUniformBitGenerator::Create(
-- 
2.43.0


From 1fb7e1777a153523e9840dfd034514c05601a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 06/20] fix: keep refusing random numbers after the reseed
 interval is exceeded

---
 .../aes_uniform_bit_generator.cpp                | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index a104a4a..83b0fba 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -50,6 +50,14 @@ AESUniformBitGenerator::result_type AESUniformBitGenerator::operator()() {
     // separate vector for the nonces which allows the CPU to pipeline calls to
     // AES_encrypt.
     int64_t num_blocks = buffer_size / 2;
+    // Check if we would exceed the reseed interval. Since the return type of
+    // operator() is required to be result_type, we have to throw an exception
+    // here.
+    if (counter_ + num_blocks > kReseedInterval) {
+      throw std::runtime_error(
+          absl::StrCat("`seed()` must be called every ", 2 * kReseedInterval,
+                       " calls to this AESUniformBitGenerator"));
+    }
     std::vector<absl::uint128> nonces(num_blocks);
     for (int64_t i = 0; i < num_blocks; i++) {
       nonces[i] = nonce_;
@@ -61,14 +69,6 @@ AESUniformBitGenerator::result_type AESUniformBitGenerator::operator()() {
     }
     elements_used_ = 0;
     counter_ += num_blocks;
-    // Check if we exceeded the reseed interval. Since the return type of
-    // operator() is required to be result_type, we have to throw an exception
-    // here.
-    if (counter_ > kReseedInterval) {
-      throw std::runtime_error(
-          absl::StrCat("`seed()` must be called every ", 2 * kReseedInterval,
-                       " calls to this AESUniformBitGenerator"));
-    }
   }
   result_type result = buffer_[elements_used_];
   elements_used_++;
-- 
2.43.0


From 87b2e3eccd125c62418f472903bdc378c61d9796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 07/20] fix: refuse negative arities instead of throwing from
 GGMTree::Create

---
 distributed_vector_ole/ggm_tree.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/ggm_tree.h b/distributed_vector_ole/ggm_tree.h
index 288b263..ba22af4 100644
--- a/distributed_vector_ole/ggm_tree.h
+++ b/distributed_vector_ole/ggm_tree.h
@@ -40,6 +40,7 @@
 
 #include "absl/numeric/int128.h"
 #include "absl/types/span.h"
+#include "mpc_utils/canonical_errors.h"
 #include "mpc_utils/statusor.h"
 #include "openssl/aes.h"
 #include "openssl/rand.h"
@@ -60,6 +61,9 @@ class GGMTree {
   // Constructs a GGMTree from a single seed.
   static mpc_utils::StatusOr<std::unique_ptr<GGMTree>> Create(
       int arity, int64_t num_leaves, Block seed) {
+    if (arity < 2) {
+      return mpc_utils::InvalidArgumentError("arity must be at least 2");
+    }
     std::vector<Block> keys(arity);
     for (int i = 0; i < arity; i++) {
       RAND_bytes(reinterpret_cast<uint8_t *>(&keys[i]), kBlockSize);
-- 
2.43.0


From 96c6c3351c711577b1d366657020ba513d47c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 08/20] fix: refuse negative missing indices when rebuilding a
 GGMTree

---
 distributed_vector_ole/ggm_tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index 210eab5..b5ed1a4 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -130,6 +130,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (num_leaves <= 0) {
     return mpc_utils::InvalidArgumentError("`num_leaves` must be positive");
   }
+  if (missing_index < 0) {
+    return mpc_utils::InvalidArgumentError(
+        "`missing_index` must not be negative");
+  }
   if (missing_index >= num_leaves) {
     return mpc_utils::InvalidArgumentError(
         "`missing_index` must be smaller than `num_leaves`");
-- 
2.43.0


From 0ff1611ee965667ad219c0361ca5d29416af8f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 09/20] fix: refuse key vectors of the wrong length when
 rebuilding a GGMTree

---
 distributed_vector_ole/ggm_tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index b5ed1a4..e09effb 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -152,6 +152,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (keys.empty()) {
     return mpc_utils::InvalidArgumentError("`keys` must not be empty");
   }
+  if (static_cast<int64_t>(keys.size()) != arity) {
+    return mpc_utils::InvalidArgumentError(
+        "`keys` must have length `arity`");
+  }
 
   // Construct path to `missing_index`.
   std::vector<int64_t> missing_path(num_levels);
-- 
2.43.0


From 472a941b46b5cbe1c7c5f4622a7cf9eb7fe0ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 10/20] fix: refuse sibling sums for the wrong number of levels
 in GGMTree

---
 distributed_vector_ole/ggm_tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index e09effb..9e3eb6c 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -174,6 +174,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
     }
   }
   ASSIGN_OR_RETURN(auto levels, AllocateLevels(arity, num_leaves));
+  if (static_cast<int>(levels.size()) != num_levels) {
+    return mpc_utils::InvalidArgumentError(
+        "Length of `sibling_wise_xors` does not match `num_leaves`");
+  }
   std::unique_ptr<GGMTree> tree = absl::WrapUnique(new GGMTree(
       std::move(levels), std::move(keys_copy), std::move(expanded_keys)));
   assert(tree->num_levels() == num_levels);
-- 
2.43.0


From 99ad84f12243193e5883a63d5552afc4d34453cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 11/20] fix: refuse negative and one-past-the-end indices in
 MPFSSKnownIndices

---
 distributed_vector_ole/mpfss_known_indices.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index a6e4ac1..fb6b53e 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -190,7 +190,7 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
         "`y` and `indices` must not be empty");
   }
   for (int i = 0; i < static_cast<int>(indices.size()); i++) {
-    if (indices[i] > static_cast<int64_t>(output.size())) {
+    if (indices[i] < 0 || indices[i] >= static_cast<int64_t>(output.size())) {
       return mpc_utils::InvalidArgumentError(
           absl::StrCat("`indices[", i, "`] out of range"));
     }
-- 
2.43.0


From 71562693ce3b8386855013b4f066e86053c5908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 12/20] fix: refuse all repeated indices in MPFSSKnownIndices

---
 distributed_vector_ole/mpfss_known_indices.h | 21 ++++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index fb6b53e..1db30f1 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -195,21 +195,16 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
           absl::StrCat("`indices[", i, "`] out of range"));
     }
   }
+  // Repeated indices can not be left to HashCuckoo, which may find different
+  // buckets for them.
+  absl::flat_hash_set<int64_t> indices_set(indices.begin(), indices.end());
+  if (indices.size() != indices_set.size()) {
+    return mpc_utils::InvalidArgumentError("All `indices` must be unique");
+  }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y.size()));
   int num_buckets = buckets_.size();
-  // Checking for uniqueness of `indices` takes time, so we only do that if
-  // cuckoo hashing fails.
-  auto status = hasher_->HashCuckoo(indices, num_buckets);
-  if (!status.ok() && mpc_utils::IsInternal(status.status()) &&
-      status.status().message() ==
-          "Failed to insert element, maximum number of tries exhausted") {
-    // Probably due to repeating indices.
-    absl::flat_hash_set<int64_t> indices_set(indices.begin(), indices.end());
-    if (indices.size() != indices_set.size()) {
-      return mpc_utils::InvalidArgumentError("All `indices` must be unique");
-    }
-  }
-  ASSIGN_OR_RETURN(auto hashed_inputs, std::move(status));
+  ASSIGN_OR_RETURN(auto hashed_inputs,
+                   hasher_->HashCuckoo(indices, num_buckets));
 
   // y padded with zeros and permuted according to hashed_inputs:
   // y_permuted[i] = y[j] if hashed_inputs[i] == j, and 0 if hashed_inputs[i] ==
-- 
2.43.0


From ba36cee5bac21162b79de8d7df866637dcd06cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 13/20] fix: refuse correlations of the wrong length in
 MPFSSKnownIndices

---
 distributed_vector_ole/mpfss_known_indices.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index 1db30f1..315dcb2 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -145,6 +145,10 @@ mpc_utils::Status MPFSSKnownIndices::RunValueProviderVectorOLE(
   }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y_len));
   int num_buckets = buckets_.size();
+  if (static_cast<int64_t>(w.size()) != num_buckets) {
+    return mpc_utils::InvalidArgumentError(
+        "`w` must have size NumBuckets(y_len)");
+  }
 
   // Receive masked and permuted y from other party and compute our share of xy
   // as (u+y)x-w.
@@ -203,6 +207,11 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
   }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y.size()));
   int num_buckets = buckets_.size();
+  if (static_cast<int64_t>(u.size()) != num_buckets ||
+      static_cast<int64_t>(v.size()) != num_buckets) {
+    return mpc_utils::InvalidArgumentError(
+        "`u` and `v` must have size NumBuckets(y.size())");
+  }
   ASSIGN_OR_RETURN(auto hashed_inputs,
                    hasher_->HashCuckoo(indices, num_buckets));
 
-- 
2.43.0


From 9ce958ac887d06dca485a5ef29bc07e405208f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 14/20] fix: refuse negative output sizes in
 MPFSSKnownIndices::UpdateBuckets

---
 distributed_vector_ole/mpfss_known_indices.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/mpfss_known_indices.cpp b/distributed_vector_ole/mpfss_known_indices.cpp
index d7d6cbc..9fe4d76 100644
--- a/distributed_vector_ole/mpfss_known_indices.cpp
+++ b/distributed_vector_ole/mpfss_known_indices.cpp
@@ -67,6 +67,10 @@ MPFSSKnownIndices::Create(mpc_utils::comm_channel* channel,
 
 mpc_utils::Status MPFSSKnownIndices::UpdateBuckets(int64_t output_size,
                                                    int num_indices) {
+  if (output_size < 0) {
+    return mpc_utils::InvalidArgumentError(
+        "`output_size` must not be negative");
+  }
   bool needs_update =
       !cached_output_size_ || *cached_output_size_ != output_size ||
       !cached_num_indices_ || *cached_num_indices_ != num_indices;
-- 
2.43.0


From 679c8704d948e7f55b41468a8a22ef2f9531b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 15/20] fix: try often enough to place small inputs in
 HashCuckoo

---
 distributed_vector_ole/cuckoo_hasher.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/cuckoo_hasher.h b/distributed_vector_ole/cuckoo_hasher.h
index 0f3eef3..b9c5853 100644
--- a/distributed_vector_ole/cuckoo_hasher.h
+++ b/distributed_vector_ole/cuckoo_hasher.h
@@ -43,6 +43,9 @@ namespace distributed_vector_ole {
 class CuckooHasher {
  public:
   static const int kDefaultHashFunctions = 3;
+  // Lower bound on the number of insertion attempts in HashCuckoo. For small
+  // inputs, chains of evictions regularly get longer than the number of inputs.
+  static constexpr int64_t kMinInsertionTries = 1000;
   // Creates a new hasher with `num_hash_functions` hash functions, using the
   // passed `seed`.
   //
@@ -76,7 +79,7 @@ class CuckooHasher {
   // Returns INVALID_ARGUMENT if `num_buckets` is not  positive or
   // `inputs.size()` is larger than `num_buckets`.
   // Returns INTERNAL if insertion fails after trying to insert an element
-  // `inputs.size()` times.
+  // `max(inputs.size(), kMinInsertionTries)` times.
   template <typename T>
   mpc_utils::StatusOr<std::vector<int64_t>> HashCuckoo(
       absl::Span<const T> inputs, int64_t num_buckets);
@@ -199,6 +202,9 @@ mpc_utils::StatusOr<std::vector<int64_t>> CuckooHasher::HashCuckoo(
   std::vector<int64_t> buckets(num_buckets, -1);
   std::vector<int> next_hash_function(num_buckets, 0);
   int64_t num_tries = inputs.size();
+  if (num_tries < kMinInsertionTries) {
+    num_tries = kMinInsertionTries;
+  }
 
   // Hash all elements.
   ASSIGN_OR_RETURN(auto hashes, Hash(inputs, num_buckets));
-- 
2.43.0


From 9f4b4c2f3f6565be5e7219d6ad4f723513aa7df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 16/20] fix: do not send value shares of empty outputs unmasked

---
 distributed_vector_ole/spfss_known_index.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/distributed_vector_ole/spfss_known_index.h b/distributed_vector_ole/spfss_known_index.h
index 5765c66..52f7ff0 100644
--- a/distributed_vector_ole/spfss_known_index.h
+++ b/distributed_vector_ole/spfss_known_index.h
@@ -118,6 +118,11 @@ mpc_utils::Status SPFSSKnownIndex::RunValueProviderBatched(
     context.restore();
 #pragma omp for schedule(guided)
     for (int j = 0; j < len; j++) {
+      if (outputs[j].empty()) {
+        // There is nothing to mask the value share with, nor to add it to.
+        sums_data[j] = T(0);
+        continue;
+      }
       for (int64_t i = 0; i < static_cast<int64_t>(outputs[j].size()); ++i) {
         sums_data[j] += outputs[j][i];
         outputs[j][i] = -outputs[j][i];
-- 
2.43.0


From 9942c828ffa2ac4fe9ad0eb6b5e1a93d5eea6907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 17/20] verif: let verification builds observe Vector-OLE
 expansions

---
 distributed_vector_ole/distributed_vector_ole.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index c1bc688..de345f8 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -30,6 +30,14 @@
 #include "distributed_vector_ole/mpfss_known_indices.h"
 #include "mpc_utils/boost_serialization/eigen.hpp"
 
+// Verification builds may observe every expansion.
+#if defined(DVO_VERIF) && defined(DVO_VERIF_EXPANSION_OBSERVER)
+#include DVO_VERIF_EXPANSION_OBSERVER
+#else
+#define DVO_VERIF_SENDER_EXPANDED(...)
+#define DVO_VERIF_RECEIVER_EXPANDED(...)
+#endif
+
 namespace distributed_vector_ole {
 
 // Security parameters. These are defined in distributed_vector_ole.cpp.
@@ -462,6 +470,10 @@ mpc_utils::Status DistributedVectorOLE<T>::ExpandSender(
       sender_vole_seed_.u * code_generator_ + mu;
   sender_cached_.v.tail(output_size) =
       sender_vole_seed_.v * code_generator_ - v0;
+  DVO_VERIF_SENDER_EXPANDED(sender_vole_seed_, sender_mpfss_seed_,
+                            code_generator_, indices, y,
+                            sender_cached_.u.tail(output_size),
+                            sender_cached_.v.tail(output_size));
 
   // Update seeds.
   ASSIGN_OR_RETURN(sender_vole_seed_, GetSenderCached(new_vole_seed_size));
@@ -491,6 +503,9 @@ mpc_utils::Status DistributedVectorOLE<T>::ExpandReceiver(
       absl::MakeSpan(v1)));
   receiver_cached_.w.tail(output_size) =
       receiver_vole_seed_.w * code_generator_ + v1;
+  DVO_VERIF_RECEIVER_EXPANDED(receiver_vole_seed_, receiver_mpfss_seed_,
+                              code_generator_,
+                              receiver_cached_.w.tail(output_size));
 
   // Update seeds.
   ASSIGN_OR_RETURN(receiver_vole_seed_, GetReceiverCached(new_vole_seed_size));
-- 
2.43.0


From 1f40164788500c116c248cc668bc6e569824b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 18/20] fix: refuse negative sizes in DistributedVectorOLE

RunSender and RunReceiver passed negative sizes on to Eigen once the
precomputation was done, which asserts or reads outside the cache.
---
 distributed_vector_ole/distributed_vector_ole.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index de345f8..6d29bac 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -552,6 +552,9 @@ DistributedVectorOLE<T>::GetReceiverCached(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::SenderResult>
 DistributedVectorOLE<T>::RunSender(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   // Run bootstrapping if not already done.
   if (!sender_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeSender(size));
@@ -600,6 +603,9 @@ DistributedVectorOLE<T>::RunSender(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::ReceiverResult>
 DistributedVectorOLE<T>::RunReceiver(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   // Run bootstrapping if not already done.
   if (!receiver_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeReceiver(size));
-- 
2.43.0


From df156c87295098ce3dec0dc6c187894e1b4700af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 19/20] fix: cap the batch size before adding the seed sizes to
 it

A batch size close to the maximum of int64_t overflowed in the check for
early exit, so that the parameter set for the smallest outputs was used
to expand to the largest output size.
---
 distributed_vector_ole/distributed_vector_ole.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 6d29bac..d402b7e 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -248,6 +248,10 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeSender(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  // Larger batches are not supported. Capping the size here also ensures that
+  // adding the seed sizes below does not overflow.
+  batch_size =
+      std::min<int64_t>(batch_size, VOLEParameters::output_size.back());
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seed using Gilboa multiplication.
@@ -311,6 +315,10 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  // Larger batches are not supported. Capping the size here also ensures that
+  // adding the seed sizes below does not overflow.
+  batch_size =
+      std::min<int64_t>(batch_size, VOLEParameters::output_size.back());
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seeds using Gilboa multiplication.
-- 
2.43.0


From 6af9e4eebd80f30acb97afef3da106663a68cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:43 +0000
Subject: [PATCH 20/20] fix: discard the previous precomputation when a new one
 fails

---
 distributed_vector_ole/distributed_vector_ole.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index d402b7e..fafdc84 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -248,6 +248,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeSender(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  // Any previous precomputation is discarded, even if this one fails.
+  sender_precomputation_done_ = false;
   // Larger batches are not supported. Capping the size here also ensures that
   // adding the seed sizes below does not overflow.
   batch_size =
@@ -315,6 +317,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  // Any previous precomputation is discarded, even if this one fails.
+  receiver_precomputation_done_ = false;
   // Larger batches are not supported. Capping the size here also ensures that
   // adding the seed sizes below does not overflow.
   batch_size =
-- 
2.43.0

