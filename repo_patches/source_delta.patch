From 90c658e721bdcaf1d689db56c7ede601748d6786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 01/27] fix: SimpleHashTable must not exceed max_bucket_size
 when hash functions coincide

---
 pir/hashing/simple_hash_table.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pir/hashing/simple_hash_table.cc b/pir/hashing/simple_hash_table.cc
index b03c19e..66e9520 100644
--- a/pir/hashing/simple_hash_table.cc
+++ b/pir/hashing/simple_hash_table.cc
@@ -14,6 +14,7 @@
 
 #include "pir/hashing/simple_hash_table.h"
 
+#include <algorithm>
 #include <memory>
 #include <string>
 #include <utility>
@@ -56,7 +57,12 @@ absl::Status SimpleHashTable::Insert(absl::string_view input) {
   std::vector<int> hashes(hash_functions_.size());
   for (int i = 0; i < hash_functions_.size(); i++) {
     hashes[i] = hash_functions_[i](input, num_buckets_);
-    if (max_bucket_size_ && table_[hashes[i]].size() >= *max_bucket_size_) {
+    // Hash functions may coincide on `input`, in which case the bucket must have
+    // space for more than one copy.
+    int num_copies =
+        std::count(hashes.begin(), hashes.begin() + i + 1, hashes[i]);
+    if (max_bucket_size_ &&
+        table_[hashes[i]].size() + num_copies > *max_bucket_size_) {
       return absl::InternalError(
           "Cannot insert element: maximum bucket size reached");
     }
-- 
2.43.0


From b59df5593a70321837bc2c205b33f7b75213784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 02/27] fix: Aes128FixedKeyHash must hash correctly when in and
 out partially overlap

Evaluate processes the input in batches of 64 blocks. When out starts after
in and the two overlap, writing an earlier batch destroyed inputs of later
batches, although the interface promises that overlap is safe.
---
 dpf/aes_128_fixed_key_hash.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dpf/aes_128_fixed_key_hash.cc b/dpf/aes_128_fixed_key_hash.cc
index f7df231..18e2bff 100644
--- a/dpf/aes_128_fixed_key_hash.cc
+++ b/dpf/aes_128_fixed_key_hash.cc
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <array>
+#include <functional>
 #include <string>
 #include <utility>
 
@@ -67,11 +68,17 @@ absl::Status Aes128FixedKeyHash::Evaluate(absl::Span<const absl::uint128> in,
   }
 
   // Compute orthomorphism sigma for each element in `in`, `kBatchSize` elements
-  // at a time.
+  // at a time. If `out` starts after `in`, batches are processed from last to
+  // first, so that no batch overwrites elements of `in` that are still needed
+  // in case the two overlap.
   auto in_size = static_cast<int64_t>(in.size());
+  const int64_t num_batches = (in_size + kBatchSize - 1) / kBatchSize;
+  const bool backwards =
+      std::less<const absl::uint128*>()(in.data(), out.data());
   std::array<absl::uint128, kBatchSize> sigma_in;
-  for (int64_t start_block = 0; start_block < in_size;
-       start_block += kBatchSize) {
+  for (int64_t batch = 0; batch < num_batches; ++batch) {
+    int64_t start_block =
+        (backwards ? num_batches - 1 - batch : batch) * kBatchSize;
     int64_t batch_size = std::min<int64_t>(in_size - start_block, kBatchSize);
     for (int i = 0; i < batch_size; ++i) {
       sigma_in[i] =
-- 
2.43.0


From 6e8f62ec763f4a2d7610aa21893dd263c24a6aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 03/27] fix: reject integer values with high bits set when
 converting from Value

---
 dpf/internal/value_type_helpers.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dpf/internal/value_type_helpers.h b/dpf/internal/value_type_helpers.h
index 1e28348..f5da7cc 100644
--- a/dpf/internal/value_type_helpers.h
+++ b/dpf/internal/value_type_helpers.h
@@ -169,11 +169,10 @@ template <typename T, typename = absl::enable_if_t<is_unsigned_integer_v<T>>>
 absl::StatusOr<T> Uint128To(absl::uint128 in) {
   // Check whether value is in range if it's smaller than 128 bits.
   if (!std::is_same<T, absl::uint128>::value &&
-      absl::Uint128Low64(in) >
-          static_cast<uint64_t>(std::numeric_limits<T>::max())) {
-    return absl::InvalidArgumentError(absl::StrCat(
-        "Value (= ", absl::Uint128Low64(in),
-        ") too large for the given type T (size ", sizeof(T), ")"));
+      in > absl::uint128{std::numeric_limits<T>::max()}) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "Value (= %d) too large for the given type T (size %d)", in,
+        sizeof(T)));
   }
   return static_cast<T>(in);
 }
-- 
2.43.0


From 73cab9a65898161178b280776db377dcdd92cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 04/27] fix: BitsNeeded must count every element of a tuple
 that contains IntModN elements

---
 dpf/internal/value_type_helpers.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dpf/internal/value_type_helpers.cc b/dpf/internal/value_type_helpers.cc
index 0704cce..729fa7a 100644
--- a/dpf/internal/value_type_helpers.cc
+++ b/dpf/internal/value_type_helpers.cc
@@ -103,12 +103,14 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
       }
     }
     if (num_other > 0) {
-      for (int i = 0; i < num_other; ++i) {
+      for (const ValueType& el : value_type.tuple().elements()) {
+        if (el.type_case() == ValueType::kIntModN) {
+          continue;
+        }
         double per_element_security_parameter =
             security_parameter + std::log2(static_cast<double>(num_other));
         DPF_ASSIGN_OR_RETURN(int el_bitsize,
-                             BitsNeeded(value_type.tuple().elements(i),
-                                        per_element_security_parameter));
+                             BitsNeeded(el, per_element_security_parameter));
         bitsize_other += el_bitsize;
       }
     }
@@ -122,6 +124,12 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
               num_ints_mod_n, int_mod_n->int_mod_n().base_integer().bitsize(),
               modulus, security_parameter));
       bitsize_ints_mod_n = bytes_needed_ints_mod_n * 8;
+      if (num_other > 0) {
+        // If the last element is not an IntModN, then sampling the last IntModN
+        // consumes additional bytes to update the block for the next element.
+        bitsize_ints_mod_n +=
+            int_mod_n->int_mod_n().base_integer().bitsize();
+      }
     }
     return bitsize_ints_mod_n + bitsize_other;
   } else if (value_type.type_case() == ValueType::kIntModN) {
-- 
2.43.0


From 23f5dac96647e831f4e45706ad8d45b79db69d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 05/27] fix: reject value types without values (empty tuples
 and modulus zero)

---
 dpf/internal/proto_validator.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index 678b3de..ad62492 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -270,6 +270,9 @@ absl::Status ProtoValidator::ValidateValueType(const ValueType& value_type) {
   if (value_type.type_case() == ValueType::kInteger) {
     return ValidateIntegerType(value_type.integer());
   } else if (value_type.type_case() == ValueType::kTuple) {
+    if (value_type.tuple().elements().empty()) {
+      return absl::InvalidArgumentError("Tuples must not be empty");
+    }
     for (const ValueType& el : value_type.tuple().elements()) {
       DPF_RETURN_IF_ERROR(ValidateValueType(el));
     }
@@ -278,6 +281,12 @@ absl::Status ProtoValidator::ValidateValueType(const ValueType& value_type) {
     const ValueType::Integer& base_integer =
         value_type.int_mod_n().base_integer();
     DPF_RETURN_IF_ERROR(ValidateIntegerType(base_integer));
+    DPF_ASSIGN_OR_RETURN(
+        absl::uint128 modulus,
+        ValueIntegerToUint128(value_type.int_mod_n().modulus()));
+    if (modulus == 0) {
+      return absl::InvalidArgumentError("`modulus` must be positive");
+    }
     return ValidateIntegerValue(value_type.int_mod_n().modulus(), base_integer);
   } else if (value_type.type_case() == ValueType::kXorWrapper) {
     return ValidateIntegerType(value_type.xor_wrapper());
-- 
2.43.0


From 4e1c459e34009dfb17a8c88b3df7678b583890df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 06/27] fix: reject DPF keys whose party is neither 0 nor 1

---
 dpf/internal/proto_validator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index ad62492..d877a0d 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -207,6 +207,9 @@ absl::Status ProtoValidator::ValidateDpfKey(const DpfKey& key) const {
   if (!key.has_seed()) {
     return absl::InvalidArgumentError("key.seed must be present");
   }
+  if (key.party() != 0 && key.party() != 1) {
+    return absl::InvalidArgumentError("key.party must be 0 or 1");
+  }
   if (key.last_level_value_correction().empty()) {
     return absl::InvalidArgumentError(
         "key.last_level_value_correction must be present");
-- 
2.43.0


From 9ee29f056365c61cf9f53a0c75ad214902851c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 07/27] fix: check the range of partial_evaluations_level
 before using it as an index

---
 dpf/distributed_point_function.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dpf/distributed_point_function.cc b/dpf/distributed_point_function.cc
index a3c42d0..cdfa025 100644
--- a/dpf/distributed_point_function.cc
+++ b/dpf/distributed_point_function.cc
@@ -381,8 +381,17 @@ DistributedPointFunction::ComputePartialEvaluations(
   int64_t num_prefixes = static_cast<int64_t>(prefixes.size());
 
   DpfExpansion partial_evaluations;
-  int start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
+  int start_level = 0;
   int stop_level = hierarchy_to_tree_[hierarchy_level];
+  if (ctx.partial_evaluations_size() > 0) {
+    if (ctx.partial_evaluations_level() < 0 ||
+        ctx.partial_evaluations_level() >=
+            static_cast<int>(hierarchy_to_tree_.size())) {
+      return absl::InvalidArgumentError(
+          "ctx.partial_evaluations_level is out of range");
+    }
+    start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
+  }
   if (ctx.partial_evaluations_size() > 0 && start_level <= stop_level) {
     // We have partial evaluations from a tree level before the current one.
     // Parse `ctx.partial_evaluations` into a btree_map for quick lookups up by
-- 
2.43.0


From 6bf14f098194eddff3b36efe31a7485592c7b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 08/27] fix: EvaluateAndApply must reject evaluation points
 outside of the domain

---
 dpf/distributed_point_function.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 6cd1c56..f84d4f1 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1091,6 +1091,15 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
     absl::Status status = proto_validator_->ValidateDpfKey(keys[i]);
     if (!status.ok()) return status;
   }
+  const int last_log_domain_size = parameters_.back().log_domain_size();
+  for (size_t i = 0; i < evaluation_points.size(); ++i) {
+    if (evaluation_points_rightshift + last_log_domain_size < 128 &&
+        (evaluation_points[i] >> (evaluation_points_rightshift +
+                                  last_log_domain_size)) != 0) {
+      return absl::InvalidArgumentError(absl::StrCat(
+          "`evaluation_points[", i, "]` larger than the domain size"));
+    }
+  }
 
   const int64_t num_keys = keys.size();
   const int num_hierarchy_levels = parameters_.size();
-- 
2.43.0


From 7a25bb7210ce7c1f9c1a8e88cbe980e380f59a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 09/27] fix: EvaluateAt and EvaluateAndApply must reject value
 types other than the declared one

---
 dpf/distributed_point_function.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index f84d4f1..bb1f71a 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -938,6 +938,14 @@ absl::StatusOr<std::vector<T>> DistributedPointFunction::EvaluateAtImpl(
         "`hierarchy_level` must be less than the number of parameters passed "
         "at construction");
   }
+  absl::StatusOr<bool> types_are_equal = dpf_internal::ValueTypesAreEqual(
+      ToValueType<T>(), parameters_[hierarchy_level].value_type());
+  if (!types_are_equal.ok()) {
+    return types_are_equal.status();
+  } else if (!*types_are_equal) {
+    return absl::InvalidArgumentError(
+        "Value type T doesn't match parameters at `hierarchy_level`");
+  }
   const auto num_evaluation_points =
       static_cast<int64_t>(evaluation_points.size());
   const int log_domain_size = parameters_[hierarchy_level].log_domain_size();
@@ -1091,6 +1099,16 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
     absl::Status status = proto_validator_->ValidateDpfKey(keys[i]);
     if (!status.ok()) return status;
   }
+  for (const DpfParameters& parameters : parameters_) {
+    absl::StatusOr<bool> types_are_equal = dpf_internal::ValueTypesAreEqual(
+        ToValueType<T>(), parameters.value_type());
+    if (!types_are_equal.ok()) {
+      return types_are_equal.status();
+    } else if (!*types_are_equal) {
+      return absl::InvalidArgumentError(
+          "Value type T doesn't match parameters at all hierarchy levels");
+    }
+  }
   const int last_log_domain_size = parameters_.back().log_domain_size();
   for (size_t i = 0; i < evaluation_points.size(); ++i) {
     if (evaluation_points_rightshift + last_log_domain_size < 128 &&
-- 
2.43.0


From 9a3e1f076e62b546f7fffde9d34a2b10730300b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 10/27] fix: EvaluateUntil must not change the context when it
 refuses a malformed value correction

---
 dpf/distributed_point_function.h | 37 ++++++++++++++++----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index bb1f71a..bd872ed 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -810,24 +810,8 @@ absl::StatusOr<std::vector<T>> DistributedPointFunction::EvaluateUntil(
     prefix_map.push_back(std::make_pair(it->second, block_index));
   }
 
-  // Perform expansion of unique `tree_indices`.
-  absl::StatusOr<DpfExpansion> expansion =
-      ExpandAndUpdateContext(hierarchy_level, tree_indices, ctx);
-  if (!expansion.ok()) {
-    return expansion.status();
-  }
-  const auto expansion_size =
-      static_cast<int64_t>(expansion->control_bits.size());
-  auto seeds = absl::MakeConstSpan(expansion->seeds.get(), expansion_size);
-
-  // Hash the expanded seeds.
-  absl::StatusOr<hwy::AlignedFreeUniquePtr<absl::uint128[]>> hashed_expansion =
-      HashExpandedSeeds(hierarchy_level, seeds);
-  if (!hashed_expansion.ok()) {
-    return hashed_expansion.status();
-  }
-
-  // Get output correction word from `ctx`.
+  // Get output correction word from `ctx`. This is done before expanding, since
+  // `ctx` must not be changed in case the key turns out to be malformed.
   constexpr int elements_per_block = dpf_internal::ElementsPerBlock<T>();
   const ::google::protobuf::RepeatedPtrField<Value>* value_correction = nullptr;
   if (hierarchy_level < static_cast<int>(parameters_.size()) - 1) {
@@ -848,6 +832,23 @@ absl::StatusOr<std::vector<T>> DistributedPointFunction::EvaluateUntil(
     return correction_ints.status();
   }
 
+  // Perform expansion of unique `tree_indices`.
+  absl::StatusOr<DpfExpansion> expansion =
+      ExpandAndUpdateContext(hierarchy_level, tree_indices, ctx);
+  if (!expansion.ok()) {
+    return expansion.status();
+  }
+  const auto expansion_size =
+      static_cast<int64_t>(expansion->control_bits.size());
+  auto seeds = absl::MakeConstSpan(expansion->seeds.get(), expansion_size);
+
+  // Hash the expanded seeds.
+  absl::StatusOr<hwy::AlignedFreeUniquePtr<absl::uint128[]>> hashed_expansion =
+      HashExpandedSeeds(hierarchy_level, seeds);
+  if (!hashed_expansion.ok()) {
+    return hashed_expansion.status();
+  }
+
   // Compute value corrections for each block in `expanded_seeds`. We have to
   // account for the fact that blocks might not be full (i.e., have less than
   // elements_per_block elements).
-- 
2.43.0


From 077523d7b0ff9c6e61edf7a55da56785a83526fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 11/27] fix: DCF keys must evaluate to zero from alpha on for
 XorWrapper values

---
 dcf/distributed_comparison_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index 40f9c36..db0250b 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -34,6 +34,8 @@ void SetToZero(Value& value) {
     value.mutable_integer()->set_value_uint64(0);
   } else if (value.value_case() == Value::kIntModN) {
     value.mutable_int_mod_n()->set_value_uint64(0);
+  } else if (value.value_case() == Value::kXorWrapper) {
+    value.mutable_xor_wrapper()->set_value_uint64(0);
   } else if (value.value_case() == Value::kTuple) {
     for (int i = 0; i < value.tuple().elements_size(); ++i) {
       SetToZero(*(value.mutable_tuple()->mutable_elements(i)));
-- 
2.43.0


From 6afad6e5bdb547af1ca55ea4b741c92fbf9c8890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 12/27] fix: DCF Create must reject log_domain_size above 128

---
 dcf/distributed_comparison_function.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index db0250b..9a156a6 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -55,6 +55,11 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
   if (parameters.parameters().log_domain_size() < 1) {
     return absl::InvalidArgumentError("A DCF must have log_domain_size >= 1");
   }
+  // Evaluation points are 128-bit integers.
+  if (parameters.parameters().log_domain_size() > 128) {
+    return absl::InvalidArgumentError(
+        "A DCF must have log_domain_size <= 128");
+  }
 
   // Create parameter vector for the incremental DPF.
   std::vector<DpfParameters> dpf_parameters(
-- 
2.43.0


From 15c66571dd1fea57450a63b48102ed22bfc16b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 13/27] fix: MIC interval bounds given as value_uint64 must not
 be read as zero

---
 .../multiple_interval_containment.cc          | 37 ++++++++++---------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 174d546..c591184 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -29,6 +29,7 @@
 #include "dcf/fss_gates/prng/basic_rng.h"
 #include "dpf/distributed_point_function.pb.h"
 #include "dpf/internal/maybe_deref_span.h"
+#include "dpf/internal/value_type_helpers.h"
 #include "dpf/status_macros.h"
 
 namespace distributed_point_functions {
@@ -56,13 +57,13 @@ MultipleIntervalContainmentGate::Create(const MicParameters& mic_parameters) {
       return absl::InvalidArgumentError("Intervals should be non-empty");
     }
 
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 p,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters.intervals(i).lower_bound()));
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 q,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters.intervals(i).upper_bound()));
 
     // Return error if the intervals are not valid group elements.
     if (p < 0 || p >= N) {
@@ -154,13 +155,13 @@ absl::StatusOr<std::pair<MicKey, MicKey>> MultipleIntervalContainmentGate::Gen(
 
   // Line 3
   for (int i = 0; i < mic_parameters_.intervals_size(); i++) {
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 p,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).lower_bound()));
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 q,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).upper_bound()));
 
     // Line 4
     absl::uint128 q_prime = (q + 1) % N;
@@ -243,13 +244,13 @@ MultipleIntervalContainmentGate::BatchEval(
   // https://eprint.iacr.org/2020/1392 Fig. 14 Eval procedure.
   for (int i = 0; i < num_intervals; ++i) {
     // Line 2
-    p[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(p[i],
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).lower_bound()));
 
-    q[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(q[i],
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).upper_bound()));
 
     // Line 3
     q_prime[i] = (q[i] + 1) % N;
-- 
2.43.0


From 9482a0bb6ca633802e965fccf80c76cdd0a12bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 14/27] fix: MIC BatchEval must reject keys without one output
 mask share per interval

---
 dcf/fss_gates/multiple_interval_containment.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index c591184..9ff4876 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -230,6 +230,14 @@ MultipleIntervalContainmentGate::BatchEval(
   }
 
   int num_intervals = mic_parameters_.intervals_size();
+  for (int i = 0; i < keys.size(); ++i) {
+    // Check that keys have one output mask share for each interval.
+    if (keys[i].output_mask_share_size() != num_intervals) {
+      return absl::InvalidArgumentError(
+          "Number of output mask shares should be equal to the number of "
+          "intervals");
+    }
+  }
   std::vector<absl::uint128> p(num_intervals), q(num_intervals),
       q_prime(num_intervals), s_p(keys.size() * num_intervals),
       s_q_prime(keys.size() * num_intervals);
@@ -294,9 +302,9 @@ MultipleIntervalContainmentGate::BatchEval(
       s_q_prime[index] = s_q_prime[index] % N;
 
       // Line 7
-      absl::uint128 z =
-          absl::MakeUint128(k.output_mask_share(j).value_uint128().high(),
-                            k.output_mask_share(j).value_uint128().low());
+      DPF_ASSIGN_OR_RETURN(
+          absl::uint128 z,
+          dpf_internal::ValueIntegerToUint128(k.output_mask_share(j)));
       absl::uint128 y = (k.dcfkey().key().party()
                              ? ((x > p[j] ? 1 : 0) - (x > q_prime[j] ? 1 : 0))
                              : 0) -
-- 
2.43.0


From e72d262a677e46f35aee2ad5e6957210d548974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 15/27] fix: EvaluateAt must reject malformed evaluation
 contexts

---
 dpf/distributed_point_function.h |  6 ++++++
 dpf/internal/proto_validator.cc  | 14 ++++++++++----
 dpf/internal/proto_validator.h   |  5 +++++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index bd872ed..7b2737c 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -968,6 +968,12 @@ absl::StatusOr<std::vector<T>> DistributedPointFunction::EvaluateAtImpl(
   if (!status.ok()) {
     return status;
   }
+  if (ctx != nullptr) {
+    status = proto_validator_->ValidateEvaluationContextContents(*ctx);
+    if (!status.ok()) {
+      return status;
+    }
+  }
   if (num_evaluation_points == 0) {
     return std::vector<T>{};  // Nothing to do.
   }
diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index d877a0d..51fd863 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -240,6 +240,16 @@ absl::Status ProtoValidator::ValidateDpfKey(const DpfKey& key) const {
 
 absl::Status ProtoValidator::ValidateEvaluationContext(
     const EvaluationContext& ctx) const {
+  DPF_RETURN_IF_ERROR(ValidateEvaluationContextContents(ctx));
+  if (ctx.previous_hierarchy_level() >= ctx.parameters_size() - 1) {
+    return absl::InvalidArgumentError(
+        "This context has already been fully evaluated");
+  }
+  return absl::OkStatus();
+}
+
+absl::Status ProtoValidator::ValidateEvaluationContextContents(
+    const EvaluationContext& ctx) const {
   if (ctx.parameters_size() != static_cast<int>(parameters_.size())) {
     return absl::InvalidArgumentError(
         "Number of parameters in `ctx` doesn't match");
@@ -256,10 +266,6 @@ absl::Status ProtoValidator::ValidateEvaluationContext(
     return absl::InvalidArgumentError("ctx.key must be present");
   }
   DPF_RETURN_IF_ERROR(ValidateDpfKey(ctx.key()));
-  if (ctx.previous_hierarchy_level() >= ctx.parameters_size() - 1) {
-    return absl::InvalidArgumentError(
-        "This context has already been fully evaluated");
-  }
   if (!ctx.partial_evaluations().empty() &&
       ctx.partial_evaluations_level() > ctx.previous_hierarchy_level()) {
     return absl::InvalidArgumentError(
diff --git a/dpf/internal/proto_validator.h b/dpf/internal/proto_validator.h
index e6e63dd..c8117ce 100644
--- a/dpf/internal/proto_validator.h
+++ b/dpf/internal/proto_validator.h
@@ -62,6 +62,11 @@ class ProtoValidator {
   // Returns OK on success, and INVALID_ARGUMENT otherwise.
   absl::Status ValidateEvaluationContext(const EvaluationContext& ctx) const;
 
+  // Like `ValidateEvaluationContext`, but also accepts contexts that have
+  // already been fully evaluated.
+  absl::Status ValidateEvaluationContextContents(
+      const EvaluationContext& ctx) const;
+
   // Checks that the given ValueType is valid.
   // Returns OK on success and INVALID_ARGUMENT otherwise.
   static absl::Status ValidateValueType(const ValueType& value_type);
-- 
2.43.0


From d2143e71965bcd76a0bd0ace1c9e49514ab3803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 16/27] fix: EvaluateAndApply must not abort on an empty batch
 of keys

---
 dpf/distributed_point_function.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 7b2737c..05a7e68 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1127,6 +1127,9 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
   }
 
   const int64_t num_keys = keys.size();
+  if (num_keys == 0) {
+    return absl::OkStatus();  // Nothing to evaluate.
+  }
   const int num_hierarchy_levels = parameters_.size();
   DpfExpansion eval;
   eval.control_bits.resize(num_keys);
-- 
2.43.0


From e8d0d76b9cd8e4cf72d7f57ad33f195664af1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 17/27] fix: MIC BatchEval must not abort without keys or
 intervals

---
 dcf/fss_gates/multiple_interval_containment.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 9ff4876..498e443 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -238,6 +238,9 @@ MultipleIntervalContainmentGate::BatchEval(
           "intervals");
     }
   }
+  if (keys.size() == 0 || num_intervals == 0) {
+    return std::vector<absl::uint128>();  // Nothing to evaluate.
+  }
   std::vector<absl::uint128> p(num_intervals), q(num_intervals),
       q_prime(num_intervals), s_p(keys.size() * num_intervals),
       s_q_prime(keys.size() * num_intervals);
-- 
2.43.0


From 358c50be57c5b69a39959d4eb0fc3b9bc49ae39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 18/27] fix: sampling several 128-bit IntModN must not mix the
 quotient into the next block

---
 dpf/int_mod_n.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dpf/int_mod_n.h b/dpf/int_mod_n.h
index 0f61ed0..c6b2013 100644
--- a/dpf/int_mod_n.h
+++ b/dpf/int_mod_n.h
@@ -175,6 +175,8 @@ class IntModNImpl : public IntModNBase {
         r /= kModulus;
         if (sizeof(BaseInteger) < sizeof(absl::uint128)) {
           r <<= (sizeof(BaseInteger) * 8);
+        } else {
+          r = 0;
         }
         r |= randomness[i];
       }
-- 
2.43.0


From da4880837e66785881de3e1ece6182a6b8f34aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 19/27] fix: DCF key generation must refuse an invalid beta for
 every alpha

---
 dcf/distributed_comparison_function.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index 9a156a6..ab4a2ae 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -87,6 +87,10 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
 absl::StatusOr<std::pair<DcfKey, DcfKey>>
 DistributedComparisonFunction::GenerateKeys(absl::uint128 alpha,
                                             const Value& beta) {
+  // Check `beta` here, since it is replaced by zero below wherever the
+  // corresponding bit of `alpha` is.
+  DPF_RETURN_IF_ERROR(dpf_internal::ProtoValidator::ValidateValue(
+      beta, parameters_.parameters().value_type()));
   const int log_domain_size = parameters_.parameters().log_domain_size();
   std::vector<Value> dpf_values(log_domain_size, beta);
   for (int i = 0; i < log_domain_size; ++i) {
-- 
2.43.0


From 6ec7bb568cf465d0c7da865682c0cf1928f96782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 20/27] fix: DCF must not ignore the security parameter it is
 given

---
 dcf/distributed_comparison_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index ab4a2ae..e3e5c6c 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -68,6 +68,8 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
     dpf_parameters[i].set_log_domain_size(i);
     *(dpf_parameters[i].mutable_value_type()) =
         parameters.parameters().value_type();
+    dpf_parameters[i].set_security_parameter(
+        parameters.parameters().security_parameter());
   }
 
   // Check that parameters are valid. We can use the DPF proto validator
-- 
2.43.0


From 9754b055dc9a2689e59bdd424f67d8d35440713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 21/27] fix: values of 128-bit types must be checked for being
 set at all

---
 dpf/internal/proto_validator.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index 51fd863..024c64d 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -88,13 +88,13 @@ absl::Status ValidateIntegerType(const ValueType::Integer& type) {
 
 absl::Status ValidateIntegerValue(const Value::Integer& value,
                                   const ValueType::Integer& type) {
-  if (type.bitsize() < 128) {
-    DPF_ASSIGN_OR_RETURN(absl::uint128 value_128, ValueIntegerToUint128(value));
-    if (value_128 >= absl::uint128{1} << type.bitsize()) {
-      return absl::InvalidArgumentError(absl::StrFormat(
-          "Value (= %d) too large for ValueType with bitsize = %d", value_128,
-          type.bitsize()));
-    }
+  // Fails if no value is set at all.
+  DPF_ASSIGN_OR_RETURN(absl::uint128 value_128, ValueIntegerToUint128(value));
+  if (type.bitsize() < 128 &&
+      value_128 >= absl::uint128{1} << type.bitsize()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "Value (= %d) too large for ValueType with bitsize = %d", value_128,
+        type.bitsize()));
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From ff6ff3b0432597cddea3f38228b052209c705584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 22/27] fix: cuckoo-hashed database builder must not drop keys
 that end up on the stash

---
 pir/cuckoo_hashed_dpf_pir_database.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pir/cuckoo_hashed_dpf_pir_database.cc b/pir/cuckoo_hashed_dpf_pir_database.cc
index 8331377..38454f8 100644
--- a/pir/cuckoo_hashed_dpf_pir_database.cc
+++ b/pir/cuckoo_hashed_dpf_pir_database.cc
@@ -16,6 +16,7 @@
 
 #include <stdint.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <string>
@@ -38,6 +39,8 @@
 namespace distributed_point_functions {
 
 namespace {
+static constexpr int64_t kMinRelocations = 1000;
+
 absl::Status CheckHasNotBeenBuilt(bool has_been_built) {
   if (has_been_built) {
     return absl::FailedPreconditionError("Database already built");
@@ -136,12 +139,16 @@ CuckooHashedDpfPirDatabase::Builder::Build() {
     value_database_builder_ = std::make_unique<DenseDpfPirDatabase::Builder>();
   }
 
-  // Cuckoo hash all the keys.
+  // Cuckoo hash all the keys. There is nowhere to store a stash, so keys that
+  // do not fit in the table are an error. Small databases get a few additional
+  // relocations, since collisions are likely there.
   int64_t num_records = records_.size();
   DPF_ASSIGN_OR_RETURN(
       auto cuckoo_hasher,
       CuckooHashTable::Create(std::move(hash_family), params_.num_buckets(),
-                              params_.num_hash_functions(), num_records));
+                              params_.num_hash_functions(),
+                              std::max(num_records, kMinRelocations),
+                              /*max_stash_size=*/0));
   for (const auto& [key, _] : records_) {
     if (key.empty()) {
       return absl::InvalidArgumentError("Key cannot be empty");
-- 
2.43.0


From 29e146b066889cd0ca6a9495272bc48c33c93206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 23/27] fix: cuckoo-hashing client must not report values for
 keys that are empty or longer than any stored key

---
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index 9ed0d3b..f486130 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -41,9 +41,10 @@ namespace distributed_point_functions {
 namespace {
 
 // Helper function that checks whether `input` is equal to `prefix` padded with
-// zero bytes.
+// zero bytes. The empty prefix stands for an empty bucket and never matches.
 bool IsPrefixPaddedWithZeros(absl::string_view input,
                              absl::string_view prefix) {
+  if (prefix.empty() || input.size() < prefix.size()) return false;
   for (int i = 0; i < input.size(); ++i) {
     if (i < prefix.size()) {
       if (input[i] != prefix[i]) return false;
-- 
2.43.0


From f5348a9c8b07b66cab3d67b38925b67c027d629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 24/27] fix: simple-hashing client must not read values missing
 from a response

---
 pir/simple_hashing_sparse_dpf_pir_client.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pir/simple_hashing_sparse_dpf_pir_client.cc b/pir/simple_hashing_sparse_dpf_pir_client.cc
index 33f571c..beaca44 100644
--- a/pir/simple_hashing_sparse_dpf_pir_client.cc
+++ b/pir/simple_hashing_sparse_dpf_pir_client.cc
@@ -198,6 +198,10 @@ SimpleHashingSparseDpfPirClient::HandleResponse(
         reinterpret_cast<const uint8_t*>(raw_responses[i].data()),
         raw_responses[i].size());
     bucket.ParseFromCodedStream(&coded_stream);
+    if (bucket.keys_size() != bucket.values_size()) {
+      return absl::InvalidArgumentError(
+          "`pir_response` does not contain the same number of keys and values");
+    }
     absl::string_view query =
         request_client_state
             .simple_hashing_sparse_dpf_pir_request_client_state()
-- 
2.43.0


From 1bf38045ffdaad16ca6cf6e85b873d92ac0c97de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 25/27] fix: dense client must not truncate the number of
 elements to 32 bits

---
 pir/dense_dpf_pir_client.cc | 3 ++-
 pir/dense_dpf_pir_client.h  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pir/dense_dpf_pir_client.cc b/pir/dense_dpf_pir_client.cc
index 12cdb08..a16f69a 100644
--- a/pir/dense_dpf_pir_client.cc
+++ b/pir/dense_dpf_pir_client.cc
@@ -15,6 +15,7 @@
 #include "pir/dense_dpf_pir_client.h"
 
 #include <cmath>
+#include <cstdint>
 #include <memory>
 #include <new>
 #include <string>
@@ -42,7 +43,7 @@ namespace distributed_point_functions {
 DenseDpfPirClient::DenseDpfPirClient(
     std::unique_ptr<DistributedPointFunction> dpf,
     EncryptHelperRequestFn encrypter, std::string encryption_context_info,
-    int database_size)
+    int64_t database_size)
     : DpfPirClient(std::move(encrypter), std::move(encryption_context_info)),
       dpf_(std::move(dpf)),
       database_size_(database_size) {}
diff --git a/pir/dense_dpf_pir_client.h b/pir/dense_dpf_pir_client.h
index 3ee4dec..423dc37 100644
--- a/pir/dense_dpf_pir_client.h
+++ b/pir/dense_dpf_pir_client.h
@@ -17,6 +17,7 @@
 #ifndef DISTRIBUTED_POINT_FUNCTIONS_PIR_DENSE_DPF_PIR_CLIENT_H_
 #define DISTRIBUTED_POINT_FUNCTIONS_PIR_DENSE_DPF_PIR_CLIENT_H_
 
+#include <cstdint>
 #include <memory>
 #include <string>
 #include <tuple>
@@ -78,10 +79,10 @@ class DenseDpfPirClient
 
   DenseDpfPirClient(std::unique_ptr<DistributedPointFunction> dpf,
                     EncryptHelperRequestFn encrypter,
-                    std::string encryption_context_info, int database_size);
+                    std::string encryption_context_info, int64_t database_size);
 
   std::unique_ptr<DistributedPointFunction> dpf_;
-  int database_size_;
+  int64_t database_size_;
 };
 
 }  // namespace distributed_point_functions
-- 
2.43.0


From 3d657e7a25c119e1f844e586afe6aefbfea14efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 26/27] fix: sparse databases and clients must refuse numbers
 of buckets beyond the range of hash functions

---
 pir/cuckoo_hashed_dpf_pir_database.cc       | 4 ++++
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 4 ++++
 pir/simple_hashed_dpf_pir_database.cc       | 8 ++++++--
 pir/simple_hashing_sparse_dpf_pir_client.cc | 4 ++++
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pir/cuckoo_hashed_dpf_pir_database.cc b/pir/cuckoo_hashed_dpf_pir_database.cc
index 38454f8..0e3cff8 100644
--- a/pir/cuckoo_hashed_dpf_pir_database.cc
+++ b/pir/cuckoo_hashed_dpf_pir_database.cc
@@ -18,6 +18,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 #include <memory>
 #include <string>
 #include <utility>
@@ -124,6 +125,9 @@ CuckooHashedDpfPirDatabase::Builder::Build() {
   if (params_.num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params_.num_buckets() > std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
   if (params_.num_hash_functions() <= 0) {
     return absl::InvalidArgumentError("`num_hash_functions` must be positive");
   }
diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index f486130..38b7b24 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -93,6 +93,10 @@ CuckooHashingSparseDpfPirClient::Create(
   if (params.cuckoo_hashing_sparse_dpf_pir_server_params().num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params.cuckoo_hashing_sparse_dpf_pir_server_params().num_buckets() >
+      std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
   if (params.cuckoo_hashing_sparse_dpf_pir_server_params()
           .num_hash_functions() <= 0) {
     return absl::InvalidArgumentError("`num_hash_functions` must be positive");
diff --git a/pir/simple_hashed_dpf_pir_database.cc b/pir/simple_hashed_dpf_pir_database.cc
index 903801c..2a1e1b5 100644
--- a/pir/simple_hashed_dpf_pir_database.cc
+++ b/pir/simple_hashed_dpf_pir_database.cc
@@ -15,6 +15,7 @@
 #include "pir/simple_hashed_dpf_pir_database.h"
 
 #include <cstddef>
+#include <limits>
 #include <memory>
 #include <string>
 #include <utility>
@@ -94,12 +95,15 @@ absl::StatusOr<std::unique_ptr<SimpleHashedDpfPirDatabase::Interface>>
 SimpleHashedDpfPirDatabase::Builder::Build() {
   DPF_RETURN_IF_ERROR(CheckHasNotBeenBuilt(has_been_built_));
   has_been_built_ = true;
-  int num_buckets = params_.num_buckets();
   int num_records = records_.size();
 
-  if (num_buckets <= 0) {
+  if (params_.num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params_.num_buckets() > std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
+  int num_buckets = params_.num_buckets();
   DPF_ASSIGN_OR_RETURN(
       HashFamily hash_family,
       CreateHashFamilyFromConfig(params_.hash_family_config()));
diff --git a/pir/simple_hashing_sparse_dpf_pir_client.cc b/pir/simple_hashing_sparse_dpf_pir_client.cc
index beaca44..fdf4f8d 100644
--- a/pir/simple_hashing_sparse_dpf_pir_client.cc
+++ b/pir/simple_hashing_sparse_dpf_pir_client.cc
@@ -93,6 +93,10 @@ SimpleHashingSparseDpfPirClient::Create(
   if (params.simple_hashing_sparse_dpf_pir_server_params().num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params.simple_hashing_sparse_dpf_pir_server_params().num_buckets() >
+      std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
 
   DPF_ASSIGN_OR_RETURN(HashFamily hash_family,
                        CreateHashFamilyFromConfig(
-- 
2.43.0


From 962ac66996f7a0e4b9de4b183cd0e5694c87d5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:50 +0000
Subject: [PATCH 27/27] fix: EvaluateAt must not change the context when it
 refuses a malformed value correction

---
 dpf/distributed_point_function.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 05a7e68..ca20898 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -978,11 +978,19 @@ absl::StatusOr<std::vector<T>> DistributedPointFunction::EvaluateAtImpl(
     return std::vector<T>{};  // Nothing to do.
   }
 
+  constexpr int elements_per_block = dpf_internal::ElementsPerBlock<T>();
+  // Get value correction words. This is done before evaluating, since `ctx`
+  // must not be changed in case the key turns out to be malformed.
+  absl::StatusOr<std::array<T, elements_per_block>> correction_ints =
+      GetValueCorrectionAsArray<T>(key, hierarchy_level);
+  if (!correction_ints.ok()) {
+    return correction_ints.status();
+  }
+
   // Split up evaluation_points into tree indices and block indices, if we're
   // operating on a packed type. Otherwise set `tree_indices` to
   // `evaluation_points`.
   hwy::AlignedFreeUniquePtr<absl::uint128[]> maybe_recomputed_tree_indices;
-  constexpr int elements_per_block = dpf_internal::ElementsPerBlock<T>();
   absl::Span<const absl::uint128> tree_indices;
   if (elements_per_block > 1) {
     maybe_recomputed_tree_indices =
@@ -1057,13 +1065,6 @@ absl::StatusOr<std::vector<T>> DistributedPointFunction::EvaluateAtImpl(
     return hashed_expansion.status();
   }
 
-  // Get value correction words.
-  absl::StatusOr<std::array<T, elements_per_block>> correction_ints =
-      GetValueCorrectionAsArray<T>(key, hierarchy_level);
-  if (!correction_ints.ok()) {
-    return correction_ints.status();
-  }
-
   // Perform value correction.
   std::vector<T> result(num_evaluation_points);
   const int blocks_needed = blocks_needed_[hierarchy_level];
-- 
2.43.0

