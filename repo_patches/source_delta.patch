From 95938dc9855834de54ebe27ee40bcef406097303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:46 +0000
Subject: [PATCH 01/55] fix: pack info bits to bytes before segmenting them in
 MAVLink based decoders

info_bits returns one int per bit; tobytes() on it yields 8 bytes per bit, so no message was ever found
and padding the validity array raised ValueError once a structure was known.
---
 decoders/combined_decoder.py         | 6 +++---
 decoders/combined_unified_decoder.py | 6 +++---
 decoders/mavlink_decoder.py          | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 78c0a1e..fc686b8 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -185,14 +185,14 @@ class CombinedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -288,7 +288,7 @@ class CombinedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index a080bfd..523a9f0 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -215,14 +215,14 @@ class CombinedUnifiedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -318,7 +318,7 @@ class CombinedUnifiedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 56aef63..3f120a6 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -140,7 +140,7 @@ class MavlinkRectifyingDecoder(Decoder):
         if self.learning:
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
-                    info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                    info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                     parts, validity, structure = self.bs.segment_buffer(info_bytes)
                     self.buffer_structures[label] = structure
                 self.model.add_buffer(estimate, self.buffer_structures[label])
@@ -212,14 +212,14 @@ class MavlinkRectifyingDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
-- 
2.43.0


From e8e70da8b05633c8dee09b7be2f04ea2b539724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:46 +0000
Subject: [PATCH 02/55] fix: MavlinkRectifyingDecoder must not update a
 cluster's model while its classifier is training

The training label -1 indexed the last cluster, as CombinedDecoder already guards against.
---
 decoders/mavlink_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 3f120a6..b5d23da 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -137,7 +137,7 @@ class MavlinkRectifyingDecoder(Decoder):
     def decode_and_update_model(self, llr, label, channel_bits) -> tuple[
         NDArray[np.int_], NDArray[np.float_], bool, int, NDArray[np.int_], NDArray[np.int_], int]:
         estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(llr)
-        if self.learning:
+        if self.learning and label >= 0:  # label is negative during training phase of classifier
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
                     info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
-- 
2.43.0


From 1db7851dae142ea0e3c3210387d8cdca49724477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:46 +0000
Subject: [PATCH 03/55] fix: Cluster.hard_bits compared a count of ones with a
 probability of zeros

---
 inference/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/clustering.py b/inference/clustering.py
index 489486d..1b69886 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -15,7 +15,7 @@ class Cluster:
 
     @property
     def hard_bits(self) -> NDArray[np.int_]:
-        return np.array(self._data[:, 1] > self.dist[:, 0], dtype=np.int_)
+        return np.array(self._data[:, 1] > self._data[:, 0], dtype=np.int_)
 
     @property
     def dist(self) -> NDArray[np.float_]:
-- 
2.43.0


From b92ad11a5648cd03d7b46a7f994f8b645775f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:46 +0000
Subject: [PATCH 04/55] fix: hellinger distance of (nearly) equal distributions
 was nan due to rounding

---
 utils/information_theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/information_theory.py b/utils/information_theory.py
index 84cbe60..467d695 100644
--- a/utils/information_theory.py
+++ b/utils/information_theory.py
@@ -99,9 +99,9 @@ def hellinger(pk: npt.NDArray[Any], qk: npt.NDArray[Any]) -> npt.NDArray[np.floa
     row is a dimension, and the number of columns equals the support size.
     """
     if pk.ndim == 2 and qk.ndim == 2:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk), axis=1))  # type: ignore
+        return np.sqrt(np.clip(1 - np.sum(np.sqrt(pk * qk), axis=1), 0, 1))  # type: ignore
     if pk.ndim == 1 and qk.ndim == 1:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk)))  # type: ignore
+        return np.sqrt(np.clip(1 - np.sum(np.sqrt(pk * qk)), 0, 1))  # type: ignore
     raise ValueError("incorrect dimensions")
 
 
-- 
2.43.0


From a61d3c3b5cdbee32de678287479bb93441ca9761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:46 +0000
Subject: [PATCH 05/55] fix: ber was wrong for unsigned bit arrays (0 - 1
 wraps) and raised for boolean ones

---
 utils/performance_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/performance_analysis.py b/utils/performance_analysis.py
index 7450841..362a430 100644
--- a/utils/performance_analysis.py
+++ b/utils/performance_analysis.py
@@ -39,7 +39,7 @@ def ber(ground_truth: np.ndarray, predicted: np.ndarray):
     :param predicted: array of bits
     :return: BER
     """
-    return np.sum(np.abs(ground_truth - predicted)) / len(ground_truth)
+    return np.sum(ground_truth != predicted) / len(ground_truth)
 
 
 __all__ = ['stats', 'ber']
-- 
2.43.0


From a2ad5530719ca1f895658e8604831329c645e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:46 +0000
Subject: [PATCH 06/55] fix: generate_markov_samples conditioned every sample
 on the (still zero) end of the sequence

---
 utils/random_sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/random_sources.py b/utils/random_sources.py
index 2792bb1..fc00fbe 100644
--- a/utils/random_sources.py
+++ b/utils/random_sources.py
@@ -16,7 +16,7 @@ def generate_markov_samples(transition_matrix, initial_state, num_samples):
 
     # Generate samples
     for i in range(order, num_samples):
-        current_states = states[-order:]
+        current_states = states[i - order:i]
         probabilities = transition_matrix[tuple(current_states)]
         states[i] = np.random.choice(range(num_states), p=probabilities)
     return states
-- 
2.43.0


From 83a660f047d4b909a01d6b0ec5f1fb47b5934972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:46 +0000
Subject: [PATCH 07/55] fix: ClassifyingDudeDecoder overwrote the caller's
 channel llr

---
 decoders/classifying_DUDE_decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoders/classifying_DUDE_decoder.py b/decoders/classifying_DUDE_decoder.py
index eb321e1..6cf12d0 100644
--- a/decoders/classifying_DUDE_decoder.py
+++ b/decoders/classifying_DUDE_decoder.py
@@ -98,6 +98,7 @@ class ClassifyingDudeDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
         model_llr = self.model_prediction(channel_bits, label)  # type: ignore
+        channel_llr = channel_llr.copy()
         channel_llr[self.model_bits_idx] += model_llr
         channel_llr = np.clip(channel_llr, -clipping, clipping)
         denoised_bits = np.array(channel_llr < 0, dtype=np.int_)
-- 
2.43.0


From d4c4c8eef0fdf429ba1dbf21c26f070db8a4be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:46 +0000
Subject: [PATCH 08/55] fix: bit models of all-zero or all-one data raised
 IndexError

prob() infers the alphabet from the data, so constant data gave a single column.
---
 decoders/classifiying_decoder.py     |  5 ++---
 decoders/combined_decoder.py         |  5 ++---
 decoders/combined_unified_decoder.py |  5 ++---
 decoders/entropy_bitwise_decoder.py  | 14 +++++++++-----
 4 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 625c325..4aee8d6 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -5,7 +5,7 @@ from numpy.typing import NDArray
 import numpy as np
 from typing import Optional
 from utils.custom_exceptions import IncorrectBufferLength
-from utils.information_theory import prob, entropy
+from utils.information_theory import entropy
 
 
 class ClassifyingEntropyDecoder(Decoder):
@@ -154,8 +154,7 @@ class ClassifyingEntropyDecoder(Decoder):
             # trim old messages according to window
             self.models_data[cluster_id] = self.models_data[cluster_id][
                                            :, self.models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.models_data[cluster_id])
-        v = dist[:, 1]
+        v = np.mean(self.models_data[cluster_id], axis=1)
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
         # mu equals p1
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index fc686b8..9c2cf32 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -7,7 +7,7 @@ from numpy.typing import NDArray, ArrayLike
 import numpy as np
 from typing import Any
 from utils.custom_exceptions import IncorrectBufferLength
-from utils.information_theory import prob, entropy
+from utils.information_theory import entropy
 
 
 def confusion(predicted_positive: ArrayLike, actual_positive: NDArray[np.int_], negative: int) -> NDArray[np.int_]:
@@ -111,8 +111,7 @@ class CombinedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
-        v = dist[:, 1]
+        v = np.mean(self.entropy_models_data[cluster_id], axis=1)
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
         # mu equals p1
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 523a9f0..de9eee9 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -7,7 +7,7 @@ from numpy.typing import NDArray, ArrayLike
 import numpy as np
 from typing import Any
 from utils.custom_exceptions import IncorrectBufferLength
-from utils.information_theory import prob, entropy
+from utils.information_theory import entropy
 
 
 def confusion(predicted_positive: ArrayLike, actual_positive: NDArray[np.int_], negative: int) -> NDArray[np.int_]:
@@ -121,8 +121,7 @@ class CombinedUnifiedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
-        v = dist[:, 1]
+        v = np.mean(self.entropy_models_data[cluster_id], axis=1)
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
         # mu equals p1
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 3816b25..d474c53 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -7,7 +7,7 @@ from numpy.typing import NDArray
 import numpy as np
 from typing import Optional
 from utils.custom_exceptions import IncorrectBufferLength
-from utils.information_theory import prob, entropy
+from utils.information_theory import entropy
 
 
 class EntropyBitwiseDecoder(Decoder):
@@ -97,7 +97,8 @@ class EntropyBitwiseDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        p1 = np.mean(self.model_data, axis=1)
+        self.distribution = np.column_stack((1 - p1, p1))
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.float_]) -> NDArray[np.float_]:
@@ -207,7 +208,8 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        p1 = np.mean(self.model_data, axis=1)
+        self.distribution = np.column_stack((1 - p1, p1))
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.int_]) -> NDArray[np.int_]:
@@ -372,7 +374,8 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_a_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_a_data = self.model_a_data[:, self.model_a_data.shape[1] - self.window_length:]
-            self.a_distribution = prob(self.model_a_data)
+            p1 = np.mean(self.model_a_data, axis=1)
+            self.a_distribution = np.column_stack((1 - p1, p1))
             if self.corrected_dist:
                 v = self.a_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
@@ -424,7 +427,8 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_b_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_b_data = self.model_b_data[:, self.model_b_data.shape[1] - self.window_length:]
-            self.b_distribution = prob(self.model_b_data)
+            p1 = np.mean(self.model_b_data, axis=1)
+            self.b_distribution = np.column_stack((1 - p1, p1))
             if self.corrected_dist:
                 v = self.b_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
-- 
2.43.0


From b5ff6405bf9876d4630fb4b56b625c9db70ba2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:46 +0000
Subject: [PATCH 09/55] fix: an all-zero or all-one training buffer broke the
 classifier (single column distribution)

---
 inference/clustering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inference/clustering.py b/inference/clustering.py
index 1b69886..1cd2eaa 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -2,7 +2,7 @@ from itertools import combinations
 from bitstring import Bits
 from numpy.typing import NDArray
 import numpy as np
-from utils.information_theory import prob, hellinger
+from utils.information_theory import hellinger
 from utils.bit_operations import hamming_distance
 from scipy.stats import entropy
 
@@ -62,8 +62,8 @@ class BufferClassifier:
     def classify(self, buffer: Bits) -> int:
         self.samples += 1
         if self.samples < self.min_data_size:
-            sample = np.array(buffer, dtype=np.int_)[np.newaxis].T
-            self.__add_cluster(prob(sample))
+            sample = np.array(buffer, dtype=np.int_)
+            self.__add_cluster(np.column_stack((1 - sample, sample)))
             return -1
         if not self.init:
             self.merge_clusters()
-- 
2.43.0


From 091d25296fa1385e29e9d354773239396bc6f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 10/55] fix: structural elements were ignored when bit 0 is the
 only structural bit

structural_elements holds indices, so any() is False for [0].
---
 decoders/classifiying_decoder.py     | 4 ++--
 decoders/combined_decoder.py         | 2 +-
 decoders/combined_unified_decoder.py | 2 +-
 decoders/entropy_bitwise_decoder.py  | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 4aee8d6..a10fbda 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -173,7 +173,7 @@ class ClassifyingEntropyDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return llr
         if self.train_models:
             size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
@@ -227,7 +227,7 @@ class ClassifyingEntropyDecoder(Decoder):
                 if size>= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
                         self.models_entropy[0] < self.entropy_threshold]
-                    if structural_elements.any():
+                    if structural_elements.size > 0:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
 
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 9c2cf32..2df717e 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -80,7 +80,7 @@ class CombinedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index de9eee9..31e929d 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -90,7 +90,7 @@ class CombinedUnifiedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index d474c53..5fb4be6 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -460,7 +460,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         a_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.a_entropy < self.entropy_threshold]
         b_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.b_entropy < self.entropy_threshold]
 
-        if (not a_structural_elements.any()) and (not b_structural_elements.any()):  # no structural elements found
+        if a_structural_elements.size == 0 and b_structural_elements.size == 0:  # no structural elements found
             return llr
 
         if self.estimator == "Bayes":
-- 
2.43.0


From 0c6503048716ba7b2551df8e38d81063450f76c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 11/55] fix: clip llr by the largest channel llr magnitude

max(llr) is negative when all bits are received as ones, which swaps the clipping bounds.
The combined and DUDE decoders already use the magnitude.
---
 decoders/classifiying_decoder.py    | 2 +-
 decoders/entropy_bitwise_decoder.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index a10fbda..8458b3a 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -107,7 +107,7 @@ class ClassifyingEntropyDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         model_llr = self.model_prediction(len(channel_llr), label)  # type: ignore
         if isinstance(self.ldpc_decoder, LogSpaDecoder):
-            clipping = self.clipping_factor * max(channel_llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
             model_llr = np.clip(channel_llr + model_llr, -clipping, clipping)
             estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_llr)
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 5fb4be6..44f766c 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -114,7 +114,7 @@ class EntropyBitwiseDecoder(Decoder):
         llr = observation.copy()
         if self.predefined_model or (self.model_data.size > 0 and self.model_data.shape[1] >= self.min_data):
             # if sufficient previous data exists
-            clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
             llr[self.structural_elements] += np.clip(  # add model llr to the observation
                 np.log(
                     (np.finfo(np.float_).eps + self.distribution[:, 0]) / (self.distribution[:, 1] + np.finfo(np.float_).eps)
@@ -494,7 +494,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         elif self.confidence_scheme == 5:  # ignore good model
             a_confidence = 0
 
-        clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+        clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
         # model llr is calculated as log(Pr(c=0 | model) / Pr(c=1| model))
         # add model llr to the observation
         if a_confidence > 0:
-- 
2.43.0


From 63d05feb36135e303a9abc5dbac53ee5d57b9e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 12/55] fix: get_msg_fields returned a dict instead of a tuple
 when no message is found

---
 inference/buffer_segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index e7642ca..4aef1d1 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -197,7 +197,7 @@ class BufferSegmentation:
         """
         msg_parts, bit_validity, buffer_structure = self.segment_buffer(buffer)
         if buffer_structure == {}:
-            return {}
+            return {}, []
         fields = {}
         buffer_description = []
         for k, v in buffer_structure.items():
-- 
2.43.0


From e81910442f8b4c1bad3ebada48f7112c3102ac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 13/55] fix: adheres_to_structure raised on short buffers and
 unknown msg ids instead of returning False

---
 inference/buffer_segmentation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index 4aef1d1..705d608 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -2,7 +2,8 @@
 import contextlib
 from enum import Enum
 from protocol_meta import dialect_meta as meta
-from protocol_meta import FrameHeader, is_valid_header, MAVError
+from protocol_meta import FrameHeader, is_valid_header, MAVError, NonExistentMsdId
+from protocol_meta.msg_header import HeaderLength
 from typing import Callable, Union, Any
 from array import array
 import numpy as np
@@ -63,7 +64,10 @@ class BufferStructure:
         :param buffer: candidate buffer
         """
         for idx, msg_id in self.structure.items():
-            hdr = FrameHeader.from_buffer(buffer[idx:idx + meta.header_len])
+            try:
+                hdr = FrameHeader.from_buffer(buffer[idx:idx + meta.header_len])
+            except (HeaderLength, NonExistentMsdId):  # buffer too short, or corrupted msg id
+                return False
             if hdr.msg_id != msg_id:
                 return False
         return True
-- 
2.43.0


From 24c4bdac8faa6c0358ced4200bf82287a36e10a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 14/55] fix: nearest valid header search stopped at an exact
 match which max_len forbids

---
 protocol_meta/msg_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol_meta/msg_header.py b/protocol_meta/msg_header.py
index d10e819..9a1243e 100644
--- a/protocol_meta/msg_header.py
+++ b/protocol_meta/msg_header.py
@@ -58,7 +58,7 @@ def hamming_distance_2_valid_header(buffer: bytes, max_len: Optional[int] = None
         if candidate_dist < min_dist and (max_len is None or msg_len <= max_len):
             min_dist = candidate_dist
             chosen_msg_id = msg_id
-        if candidate_dist == 0:
+        if min_dist == 0:
             break
 
     dist += min_dist
-- 
2.43.0


From 6dc2c5b90ba6cc715be4cfab264f659eb1cead8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 15/55] fix: a nan or inf float sample (bit errors) made
 FieldModel raise for as long as it is in the window

---
 inference/statistical_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index d9fad8c..03ea35b 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -73,7 +73,9 @@ class FieldModel:
 
     def _update(self) -> None:
         if self.samples:
-            self._mean, self._std = norm.fit(self.samples)
+            # corrupted float fields may hold nan or inf, which can't be fitted
+            finite = [sample for sample in self.samples if np.isfinite(sample)]
+            self._mean, self._std = norm.fit(finite) if finite else (np.nan, np.nan)
             self._up2date = True
 
     def pdf(self, x: int) -> float:
-- 
2.43.0


From dc5ef0c46742f93b8000d2e78a8624059c2edf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 16/55] fix: num2bits raised for a 64 bit mean which rounds to
 just outside the type's range

---
 inference/statistical_models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index 03ea35b..316c28e 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -21,6 +21,10 @@ def num2bits(num, field_type: str) -> NDArray[np.uint8]:
         num = int(round(num))
     elif field_type != "float":
         raise ValueError(f"field_type {field_type} is not supported")
+    if "int" in field_type:  # rounding a mean near the end of the range may exceed it
+        bits = 8 * field_lengths[field_type]
+        low, high = (0, 2 ** bits - 1) if "uint" in field_type else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
+        num = min(max(num, low), high)
     fmt = format_strings[field_type]
     to_bytes = struct.pack(fmt, num)
     return np.unpackbits(np.frombuffer(to_bytes, dtype=np.uint8))
-- 
2.43.0


From 44961f08b240540a126612de70fd464d230d1f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 17/55] fix: confidence scheme 2 was unreachable

---
 decoders/entropy_bitwise_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 44f766c..ec7e930 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -481,7 +481,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if s > 0:
                 a_confidence *= a_confidence / s
                 b_confidence *= b_confidence / s
-        elif self.confidence_scheme == 1:  # normalize sum but prefer "good" model
+        elif self.confidence_scheme == 2:  # normalize sum but prefer "good" model
             s = 2 * a_confidence + b_confidence
             if s > 0:
                 a_confidence *= 2 * a_confidence / s
-- 
2.43.0


From a6cd60f3c4f98d00cdc9a2e390c5e85795f24dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 18/55] fix: confidence scheme 4 raised until both models had
 data

---
 decoders/entropy_bitwise_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index ec7e930..a353f0b 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -274,13 +274,13 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         self.estimator = estimator
         self.bit_flip = bit_flip
         self.corrected_dist = corrected_dist
+        self.a_normalized_variance = 1.0  # before any data is available assume uniform variance
+        self.b_normalized_variance = 1.0
         if estimator == "Bayes":
             self.a_ones_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.a_zeros_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.b_ones_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.b_zeros_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
-            self.a_normalized_variance = 0.0
-            self.b_normalized_variance = 0.0
             self.min_size = window_length
             self.max_size = 2 * window_length
         else:  # use MLE
-- 
2.43.0


From 78403862dc38036ef68a851042d669842721b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 19/55] fix: operator precedence when rescaling Bayes priors to
 the minimal model size

---
 decoders/entropy_bitwise_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index a353f0b..edcfe26 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -355,7 +355,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
                 self.a_ones_prior //= gcd
                 self.a_zeros_prior //= gcd
                 if self.a_ones_prior[0] + self.a_zeros_prior[0] < self.min_size:
-                    m = self.min_size // self.a_ones_prior[0] + self.a_zeros_prior[0]
+                    m = self.min_size // (self.a_ones_prior[0] + self.a_zeros_prior[0])
                     self.a_ones_prior *= m
                     self.a_zeros_prior *= m
 
@@ -408,7 +408,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
                 self.b_ones_prior //= gcd
                 self.b_zeros_prior //= gcd
                 if self.b_ones_prior[0] + self.b_zeros_prior[0] < self.min_size:
-                    m = self.min_size // self.b_ones_prior[0] + self.b_zeros_prior[0]
+                    m = self.min_size // (self.b_ones_prior[0] + self.b_zeros_prior[0])
                     self.b_ones_prior *= m
                     self.b_zeros_prior *= m
             # estimate v using mode of beta variable
-- 
2.43.0


From c56bf248908ed70d427a4d65280ee8a8550b9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 20/55] fix: CombinedDecoder raised IncorrectBufferLength
 unless the model spans the whole codeword

Same slicing as in CombinedUnifiedDecoder.
---
 decoders/combined_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 2df717e..4fe8181 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -294,7 +294,7 @@ class CombinedDecoder(Decoder):
                 elif self.buffer_structures[label] is not None:  # update model from channel if data is bad
                     self.model.add_buffer(channel_bits, self.buffer_structures[label])
             if decode_success:  # buffer fully recovered
-                self.update_entropy_model(estimate, label)
+                self.update_entropy_model(estimate[:self.model_length], label)
             else:  # update model from channel if data is bad
-                self.update_entropy_model(channel_bits, label)
+                self.update_entropy_model(channel_bits[:self.model_length], label)
         return estimate, llr, decode_success, iterations, label
-- 
2.43.0


From 18d33e65145186e29f2b9bbb11613ef9b468559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 21/55] fix: stats never recognised classes without samples
 (np.bool_ is never True by identity)

---
 utils/performance_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/performance_analysis.py b/utils/performance_analysis.py
index 362a430..b359e94 100644
--- a/utils/performance_analysis.py
+++ b/utils/performance_analysis.py
@@ -14,7 +14,7 @@ def stats(actual_labels=None, predicted_labels=None, cm=None):
         _precision = np.zeros(n_classes)
         for label in range(n_classes):
             if np.sum(cm[:, label]) == 0:  # no predictions for this class
-                _precision[label] = 1 if no_true_positives[label] is True else 0
+                _precision[label] = 1 if no_true_positives[label] else 0
                 # if there are no true positives, then precision is 1, else 0
             else:  # there are predictions for this class
                 _precision[label] = cm[label, label] / np.sum(cm[:, label])
@@ -27,7 +27,7 @@ def stats(actual_labels=None, predicted_labels=None, cm=None):
             if denominator[label] > 0:  # if there are some correct predictions for this class
                 _f1[label] = 2 * (_precision[label] * _recall[label]) / denominator[label]
             else:  # if there are no correct predictions for this class
-                _f1[label] = 1 if no_true_positives[label] is True else 0  # if there are no true positives, then 1, else 0
+                _f1[label] = 1 if no_true_positives[label] else 0  # if there are no true positives, then 1, else 0
     _accuracy = np.sum(np.diag(cm)) / np.sum(cm)
     return cm, _recall, _precision, _f1, _accuracy
 
-- 
2.43.0


From 7cfe9ed7820a143fa1fe9ab917e2f60767803be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 22/55] fix: relabel could map several clusters to one real
 label

---
 runs/clsutering_analysis/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runs/clsutering_analysis/functions.py b/runs/clsutering_analysis/functions.py
index 26c4c76..080a82d 100644
--- a/runs/clsutering_analysis/functions.py
+++ b/runs/clsutering_analysis/functions.py
@@ -33,6 +33,7 @@ def relabel(predicted_labels, n_classes, real_labels=None):
         true_label, predicted_label = np.unravel_index(reduced_prediction_counts.argmax(), reduced_prediction_counts.shape)
         labels_map[predicted_label] = true_label
         reduced_prediction_counts[:, predicted_label] = -1
+        reduced_prediction_counts[true_label, :] = -1
     tmp, remaining_predicted_label = np.unravel_index(reduced_prediction_counts.argmax(), reduced_prediction_counts.shape)
     remaining_true_label = np.setdiff1d(np.arange(n_classes), np.array(list(labels_map.values())))[0]
     labels_map[remaining_predicted_label] = remaining_true_label
-- 
2.43.0


From ec656d55941168f6e550161348e84c2f28f5330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 23/55] fix: reliability method 3 used the first cluster's
 model for every cluster

---
 decoders/classifiying_decoder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 8458b3a..517558d 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -113,12 +113,12 @@ class ClassifyingEntropyDecoder(Decoder):
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
             # Use WBF only with AWGN since it assumes a specific relationship between priors and LLR
             # The more positive the reliability is, the less reliable the value is
-            samples, priors = self._sample_and_priors(channel_llr, model_llr)
+            samples, priors = self._sample_and_priors(channel_llr, model_llr, label)
             estimate, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(samples,
                                                                                                       priors)
             llr = np.array([])
         elif isinstance(self.ldpc_decoder, GalBfDecoder):
-            samples, _ = self._sample_and_priors(channel_llr, model_llr)
+            samples, _ = self._sample_and_priors(channel_llr, model_llr, label)
             if samples.dtype != np.int_:  # convert to hard bits
                 hard_channel_bits = np.array(samples < 0, dtype=np.int_)
             else:
@@ -191,7 +191,7 @@ class ClassifyingEntropyDecoder(Decoder):
 
         return llr
 
-    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_]):
+    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_], cluster_id: int):
         """The method returns a modified channel sample and priors depending on the method used and inputs"""
         max_sample = max(np.abs(channel_sample))
         samples = channel_sample
@@ -223,10 +223,10 @@ class ClassifyingEntropyDecoder(Decoder):
             if self.reliability_method == 3:  # Used for forcing th bits in the GalBfDecoder
                 model_bits = np.array(model_llr < 0, dtype=np.int_)
                 samples = np.array(channel_sample < 0, dtype=np.int_)
-                size = self.models_data[0].shape[1] if self.models_data[0].size > 0 else 0
+                size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
                 if size>= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
-                        self.models_entropy[0] < self.entropy_threshold]
+                        self.models_entropy[cluster_id] < self.entropy_threshold]
                     if structural_elements.size > 0:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
-- 
2.43.0


From fee774e2d6170ed0d4226d73eb402e2995aaacca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 24/55] fix: MAVLink decoders crashed on fields the model has
 no data for yet

predict returned None for them, and bitwise_model_mean raised KeyError.
---
 inference/statistical_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index 316c28e..5becb8c 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -208,7 +208,7 @@ class BufferModel:
         # calculate the valid probability of each field
         valid_bits_probability = np.array([None] * len(bit_2_val_idx)).astype(np.float_)
         bits_std = np.array([None] * len(bit_2_val_idx)).astype(np.float_)
-        valid_field_probability: list[tuple[str, float, float]] = [None] * len(fields)
+        valid_field_probability: list[tuple[str, float, float]] = [(name, np.nan, np.nan) for name in ordered_field_names]
         for field_idx, field_name, value in zip(range(len(fields)), ordered_field_names, fields):
             if field_name in self._field_models.keys():
                 val, std = self._field_models[field_name].classify_value(value)
@@ -379,7 +379,8 @@ class BufferModel:
         mean_values = np.zeros(buffer_len*8, dtype=np.uint8)
         for field_idx, field_name, field_type in zip(range(len(ordered_field_names)),
                                                      ordered_field_names, ordered_field_types):
-            mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
+            if field_name in self._field_models.keys():
+                mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
         return mean_values[bits_idx]
 
 
-- 
2.43.0


From 50c0e145feeaea5d099d132ee8f601af7953f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 25/55] fix: debug mode crashed before a buffer structure is
 known

---
 decoders/combined_decoder.py         | 2 ++
 decoders/combined_unified_decoder.py | 2 ++
 decoders/mavlink_decoder.py          | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 4fe8181..eb4aec8 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -221,6 +221,8 @@ class CombinedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 31e929d..755612e 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -251,6 +251,8 @@ class CombinedUnifiedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index b5d23da..daca551 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -249,6 +249,8 @@ class MavlinkRectifyingDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
-- 
2.43.0


From ec91fdae95cd745152401c5e7d0e8e426227a49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 26/55] fix: field classification analysis counted a damaged
 field once per bit error

which made negative counts (and true negatives) wrong, even below zero.
---
 decoders/combined_decoder.py         | 4 ++--
 decoders/combined_unified_decoder.py | 4 ++--
 decoders/mavlink_decoder.py          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index eb4aec8..3b7c14e 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -209,9 +209,9 @@ class CombinedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 755612e..5c133d9 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -239,9 +239,9 @@ class CombinedUnifiedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index daca551..64526ab 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -237,9 +237,9 @@ class MavlinkRectifyingDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
-- 
2.43.0


From 581208786a03ea9294cd263d1f17945713c87c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 27/55] fix: EMLE.predict overwrote the caller's llr

---
 inference/entropy_mle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inference/entropy_mle.py b/inference/entropy_mle.py
index 944586d..88a7817 100644
--- a/inference/entropy_mle.py
+++ b/inference/entropy_mle.py
@@ -58,6 +58,7 @@ class EMLE:
         if not structural_elements.any():  # no structural elements found
             return observation_llr
         c = self._model_confidence()
+        observation_llr = observation_llr.copy()
         if c > 0:
             observation_llr[structural_elements] += c * np.log(
                 (1 - self.p1 + np.finfo(np.float_).eps) / (self.p1 + np.finfo(np.float_).eps))[structural_elements]
-- 
2.43.0


From b6f710189ccdd83b0982268aad2368eb759beb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 28/55] fix: the context of an OnlineDude with k=0 grew to
 length 1

---
 inference/dude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/dude.py b/inference/dude.py
index 34e77f6..c1bbf2e 100644
--- a/inference/dude.py
+++ b/inference/dude.py
@@ -46,7 +46,7 @@ class OnlineDude:
         self.contexts[self._last_context][observation] += 1
         empirical_p = self.contexts[self._last_context][np.newaxis]
         # update the context
-        self._last_context = self._last_context[1:] + (observation,)
+        self._last_context = (self._last_context + (observation,))[1:]
         # estimate the state
         if self.hard_decision:
             posterior_p = np.matmul(empirical_p, self.inverse_channel_transition_matrix) * self.channel_transition_matrix[
@@ -148,7 +148,7 @@ class DUDE:
 
         empirical_p = self.contexts[self._last_context][np.newaxis]
         # update the context
-        self._last_context = self._last_context[1:] + (observation,)
+        self._last_context = (self._last_context + (observation,))[1:]
         # estimate the state
         if self.hard_decision:
             posterior_p = np.matmul(empirical_p, self.inverse_channel_transition_matrix) * self.channel_transition_matrix[
-- 
2.43.0


From 47e20c811af02e2472a4d386ed51f96af9f7374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 29/55] fix: with several segmentation iterations a buffer was
 classified and learned several times

The classifier counted it again (or the deterministic cluster order advanced) on every iteration, and a buffer
which wasn't decoded was added to the model once per iteration.
---
 decoders/mavlink_decoder.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 64526ab..0bf0fe8 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -97,18 +97,18 @@ class MavlinkRectifyingDecoder(Decoder):
         channel_bits: NDArray[np.int_] = np.array(channel_llr < 0, dtype=np.int_)
         decoder_input = channel_llr.copy()
         all_iteration = 0
-        for _ in range(self.segmentation_iterations):
-            if self.n_clusters > 1:
-                if self.cluster:
-                    label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
-                    if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
-                        return self.decode_and_update_model(channel_llr, label, channel_bits) + (np.array([]), [], [], {}, {})
-                else:
-                    self.running_idx = (self.running_idx + 1) % self.n_clusters
-                    label = self.running_idx
-            else:  # no clustering, single buffer type
-                label = 0
+        if self.n_clusters > 1:
+            if self.cluster:
+                label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
+                if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
+                    return self.decode_and_update_model(channel_llr, label, channel_bits) + (np.array([]), [], [], {}, {})
+            else:
+                self.running_idx = (self.running_idx + 1) % self.n_clusters
+                label = self.running_idx
+        else:  # no clustering, single buffer type
+            label = 0
 
+        for iteration in range(self.segmentation_iterations):
             segmented_bits: NDArray[np.bool_]
             good_fields_idx: list[int]
             bad_fields_idx: list[int]
@@ -119,7 +119,8 @@ class MavlinkRectifyingDecoder(Decoder):
             decoder_input, good_bits, bad_bits, good_fields_idx, bad_fields_idx, n_fields, forced_bits, \
                 segmented_bits = self.model_prediction(decoder_input, label)
             estimate, decoder_input, decode_success, iterations, syndrome, vnode_validity, \
-                label = self.decode_and_update_model(decoder_input, label, channel_bits)
+                label = self.decode_and_update_model(decoder_input, label, channel_bits,
+                                                     last_iteration=iteration == self.segmentation_iterations - 1)
             all_iteration += iterations
             if decode_success:
                 break
@@ -134,7 +135,7 @@ class MavlinkRectifyingDecoder(Decoder):
         return estimate, decoder_input, decode_success, all_iteration, syndrome, vnode_validity, label, \
             segmented_bits, good_fields_idx, bad_fields_idx, classifier_performance, forcing_performance
 
-    def decode_and_update_model(self, llr, label, channel_bits) -> tuple[
+    def decode_and_update_model(self, llr, label, channel_bits, last_iteration: bool = True) -> tuple[
         NDArray[np.int_], NDArray[np.float_], bool, int, NDArray[np.int_], NDArray[np.int_], int]:
         estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(llr)
         if self.learning and label >= 0:  # label is negative during training phase of classifier
@@ -144,7 +145,7 @@ class MavlinkRectifyingDecoder(Decoder):
                     parts, validity, structure = self.bs.segment_buffer(info_bytes)
                     self.buffer_structures[label] = structure
                 self.model.add_buffer(estimate, self.buffer_structures[label])
-            elif self.buffer_structures[label] is not None:  # update model from channel if data is bad
+            elif last_iteration and self.buffer_structures[label] is not None:  # update model from channel if data is bad
                 self.model.add_buffer(channel_bits, self.buffer_structures[label])
         return estimate, llr, decode_success, iterations, syndrome, vnode_validity, label
 
-- 
2.43.0


From cd61d23ba727a6036dca4a3d8b4bcfae11b5e9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:37 +0000
Subject: [PATCH 30/55] fix: debug mode of MavlinkRectifyingDecoder crashed on
 the buffer from which the structure is learned

---
 decoders/mavlink_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 0bf0fe8..387552e 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -124,7 +124,7 @@ class MavlinkRectifyingDecoder(Decoder):
             all_iteration += iterations
             if decode_success:
                 break
-        if self.debug:
+        if self.debug and n_fields > 0:  # nothing was predicted if structure was unknown when rectifying
             classifier_performance = self.classifier_analysis(good_fields_idx, bad_fields_idx, error_idx, n_fields,
                                                               label)
             forcing_performance = self.forcing_analysis(forced_bits, error_idx, channel_bits, label)
-- 
2.43.0


From be927bd484cf4c0c98dc95d5a4cc4d43f88aa59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:16 +0000
Subject: [PATCH 31/55] fix: num2bits always failed for char fields

---
 inference/statistical_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index 5becb8c..4c5a2a8 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -14,7 +14,7 @@ import struct
 def num2bits(num, field_type: str) -> NDArray[np.uint8]:
     # cast first
     if field_type == "char":
-        num = ord(num)
+        num = bytes([ord(num)])
     elif "uint" in field_type:
         num = int(round(num)) if num >= 0 else 0
     elif "int" in field_type:
-- 
2.43.0


From faaad6b09f12297c209e864fbdb250d6b0dda501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:10 +0000
Subject: [PATCH 32/55] fix: simulation runners crashed while encoding, the
 encoder takes arrays of bits

---
 .../classifying_entropy_decoder_over_awgn_channel.py | 10 +++++-----
 .../simulated_data_classifying_dude_decoder.py       | 12 ++++++------
 .../simulated_data_combined_decoder.py               | 10 +++++-----
 .../simulated_data_mavlink_decoding.py               | 10 +++++-----
 .../simulated_data_pretrained_model.py               |  2 +-
 5 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
index 6bddc43..ddc9773 100644
--- a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
+++ b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
@@ -87,17 +87,17 @@ for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
         padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
     elif args.n_clusters == 2:
         padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k-576))
-        encoded.extend((encoder.encode(padded), encoder.encode(binary_data[576:])))
+        encoded.extend((encoder.encode(np.array(padded, dtype=np.int_)), encoder.encode(np.array(binary_data[576:], dtype=np.int_))))
     elif args.n_clusters == 3:
         padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k-416))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864-416)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224-864)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
     encoded.extend(encoded)
diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
index d893e7c..776054a 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
@@ -68,18 +68,18 @@ for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
         padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
     elif args.n_clusters == 2:
         padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576))
-        encoded.append(encoder.encode(padded))
-        encoded.append(encoder.encode(binary_data[576:]))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
+        encoded.append(encoder.encode(np.array(binary_data[576:], dtype=np.int_)))
     elif args.n_clusters == 3:
         padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
     encoded.extend(encoded)
diff --git a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
index 2670fd2..df53363 100644
--- a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
@@ -80,17 +80,17 @@ for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
         padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
     elif args.n_clusters == 2:
         padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576))
-        encoded.extend((encoder.encode(padded), encoder.encode(binary_data[576:])))
+        encoded.extend((encoder.encode(np.array(padded, dtype=np.int_)), encoder.encode(np.array(binary_data[576:], dtype=np.int_))))
     elif args.n_clusters == 3:
         padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
     encoded.extend(encoded)
diff --git a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
index e74d37b..8e97d6d 100644
--- a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
+++ b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
@@ -76,17 +76,17 @@ for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
         padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
     elif args.n_clusters == 2:
         padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576))
-        encoded.extend((encoder.encode(padded), encoder.encode(binary_data[576:])))
+        encoded.extend((encoder.encode(np.array(padded, dtype=np.int_)), encoder.encode(np.array(binary_data[576:], dtype=np.int_))))
     elif args.n_clusters == 3:
         padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
     encoded.extend(encoded)
diff --git a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
index 385a043..27f1bc8 100644
--- a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
+++ b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
@@ -61,7 +61,7 @@ encoded = []
 for binary_data in hc_bin_data[:n]:
     pad_len = encoder.k - len(binary_data)
     padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-    encoded.append(encoder.encode(padded))
+    encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
     encoded.extend(encoded)
-- 
2.43.0


From 07fc2a894a5e85e91d3064aefba7757b3994e166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:10 +0000
Subject: [PATCH 33/55] fix: AWGN runner reported every buffer to have all of
 its bits in error

---
 .../classifying_entropy_decoder_over_awgn_channel.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
index ddc9773..df41cc9 100644
--- a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
+++ b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
@@ -176,8 +176,8 @@ def simulation_step(snr: float) -> dict[str, Any]:
     if n-bp_success > 0:
         logger.info(f"NR recovery rate for snr= {snr}, is: {(entropy_success-bp_success)/(n-bp_success)}")
     # log data
-    info_errors = np.sum(errors < encoder.k, axis=1)
-    parity_errors = np.sum(errors >= encoder.k, axis=1)
+    info_errors = np.sum(errors[:, :encoder.k], axis=1)
+    parity_errors = np.sum(errors[:, encoder.k:], axis=1)
     zipped = [[np.array(en, dtype=np.int_), r, er, inf, pa] for en, r, er, inf, pa in
               zip(encoded, rx, errors, info_errors, parity_errors)]
     step_results["data"] = pd.DataFrame(zipped, columns=["encoded", "corrupted", "error_idx", "info_errors",
-- 
2.43.0


From 27ef99f3abc4c4a2d188505f9a276e9a4481d3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:10 +0000
Subject: [PATCH 34/55] fix: entropy runner crashed for bit flipping over BSC
 and belief propagation over AWGN

---
 .../simulated_data_classifying_entropy_decoder.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
index 56d0e98..8bb73e2 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
@@ -173,7 +173,7 @@ def simulation_step(p: float) -> dict[str, Any]:
             noise = sigma * rng.normal(size=len(baseband))
             # channel: y_i = x_i + n_i, i.e. add noise
             noisy = baseband + noise
-            channel_llr = noisy
+            channel_llr = noisy if args.dec_type == "BF" else channel(noisy)
             corrupted = noisy < 0
             errors[tx_idx] = encoded[tx_idx] ^ corrupted
         rx[tx_idx] = corrupted
@@ -207,7 +207,7 @@ def simulation_step(p: float) -> dict[str, Any]:
                                       columns=["estimate", "llr", "decode_success", "iterations", "syndrome",
                                                "vnode_validity", "dist", "structural_idx", "cluster_label", "hamming"])
     step_results["decoded_entropy"] = decoded_entropy_df
-    if args.channel_type == "bsc":
+    if args.dec_type in {"BP", "MS"}:
         decoded_ldpc_df = pd.DataFrame(decoded_ldpc,
                                        columns=["estimate", "llr", "decode_success", "iterations", "syndrome",
                                                 "vnode_validity", "hamming"])
-- 
2.43.0


From 971957ffbfe16a2adf567f9e3353a86b2b8ec808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:10 +0000
Subject: [PATCH 35/55] fix: pretrained model runner divided by zero when plain
 decoding recovers every buffer

---
 runs/HC_eilat_July_2018/simulated_data_pretrained_model.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
index 27f1bc8..80abfb7 100644
--- a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
+++ b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
@@ -140,7 +140,6 @@ def simulation_step(p: float) -> dict[str, Any]:
     logger.info(f"successful pre-trained decoding for bit flip p= {p}, is: {pre_trained_success}/{n}")
     if n-pure_success > 0:
         logger.info(f"NR recovery rate for bit flip p= {p}, is: {(entropy_success-pure_success)/(n-pure_success)}")
-    if n-pre_trained_success > 0:
         logger.info(f"pre-trained recovery rate for bit flip p= {p}, is: "
                     f"{(pre_trained_success-pure_success)/(n-pure_success)}")
     # log data
-- 
2.43.0


From 9dbb76574ca59b981a4e0b6348822ceda14ce48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:10 +0000
Subject: [PATCH 36/55] fix: mavlink runner crashed when learning the model
 with clustering enabled

---
 runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
index 8e97d6d..da4991f 100644
--- a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
+++ b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
@@ -92,8 +92,8 @@ for _ in range(args.multiply_data):  # generate more buffers for statistical rep
     encoded.extend(encoded)
 n = len(encoded)
 # {0: 33, 52: 234, 72: 30, 108: 212, 135: 218}
+data_model = None
 if not bool(args.cluster):
-    data_model = None
     bs = BufferSegmentation(meta.protocol_parser)
     if args.n_clusters == 1:
         _, _, buffer_structure = bs.segment_buffer(binary_data.tobytes())
-- 
2.43.0


From 60a56429c2bc4df3b3d0fab1029eeb5653948ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:10 +0000
Subject: [PATCH 37/55] fix: iterations of the bit flipping runner depended on
 the steps the process had run before

---
 .../simluated_data_entropy_bf_decoders.py       | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
index c7996a8..2a68701 100644
--- a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
+++ b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
@@ -73,7 +73,6 @@ logger = setup_logger(name=__file__, log_file=os.path.join("results/", 'log.log'
 
 
 def simulation_step(p: float) -> dict[str, Any]:
-    global ldpc_iterations
     global model_length
     global thr
     global args
@@ -93,25 +92,25 @@ def simulation_step(p: float) -> dict[str, Any]:
     ms_decoder = DecoderWiFi(spec=spec, max_iter=20, decoder_type="MS")
     m, nn = h.shape
     k = nn - m
-    ldpc_iterations = max(int(3*p*nn), ldpc_iterations)
-    wbf_decoder = WbfDecoder(h=h, max_iter=ldpc_iterations, decoder_variant=WbfVariant.WBF,
+    max_iterations = max(int(3*p*nn), ldpc_iterations)
+    wbf_decoder = WbfDecoder(h=h, max_iter=max_iterations, decoder_variant=WbfVariant.WBF,
                               info_idx=np.array([True] * k + [False] * m))
     wbf_entropy_decoder = ClassifyingEntropyDecoder(
-        WbfDecoder(h=h,max_iter=ldpc_iterations, decoder_variant=WbfVariant.WBF,
+        WbfDecoder(h=h,max_iter=max_iterations, decoder_variant=WbfVariant.WBF,
                    info_idx=np.array([True] * k + [False] * m)),
         model_length=model_length, entropy_threshold=thr, clipping_factor=0, classifier_training=0, n_clusters=1,
         window_length=window_len, conf_center=args.conf_center, conf_slope=args.conf_slope, bit_flip=p, cluster=0, reliability_method=0)
-    mwbf_decoder = WbfDecoder(h=h, max_iter=ldpc_iterations, decoder_variant=WbfVariant.MWBF,
+    mwbf_decoder = WbfDecoder(h=h, max_iter=max_iterations, decoder_variant=WbfVariant.MWBF,
                               info_idx=np.array([True] * k + [False] * m))
     mwbf_entropy_decoder = ClassifyingEntropyDecoder(
-        WbfDecoder(h=h, max_iter=ldpc_iterations, decoder_variant=WbfVariant.MWBF,
+        WbfDecoder(h=h, max_iter=max_iterations, decoder_variant=WbfVariant.MWBF,
                    info_idx=np.array([True] * k + [False] * m)),
         model_length=model_length, entropy_threshold=thr, clipping_factor=0, classifier_training=0, n_clusters=1,
         window_length=window_len, conf_center=args.conf_center, conf_slope=args.conf_slope, bit_flip=p, cluster=0, reliability_method=0)
-    mwbf_decoder_no_loop = WbfDecoder(h=h, max_iter=ldpc_iterations, decoder_variant=WbfVariant.MWBF_NO_LOOPS,
+    mwbf_decoder_no_loop = WbfDecoder(h=h, max_iter=max_iterations, decoder_variant=WbfVariant.MWBF_NO_LOOPS,
                                       info_idx=np.array([True] * k + [False] * m))
     mwbf_entropy_decoder_no_loop = ClassifyingEntropyDecoder(
-        WbfDecoder(h=h, max_iter=ldpc_iterations, decoder_variant=WbfVariant.MWBF_NO_LOOPS,
+        WbfDecoder(h=h, max_iter=max_iterations, decoder_variant=WbfVariant.MWBF_NO_LOOPS,
                    info_idx=np.array([True] * k + [False] * m)),
         model_length=model_length, entropy_threshold=thr, clipping_factor=0, classifier_training=0, n_clusters=1,
         window_length=window_len, conf_center=args.conf_center, conf_slope=args.conf_slope, bit_flip=p, cluster=0, reliability_method=0)
@@ -175,7 +174,7 @@ def simulation_step(p: float) -> dict[str, Any]:
     # params
     step_results["buffer_len"] = len(encoded[0])
     step_results["number_of_buffers"] = n
-    step_results["max_ldpc_iterations"] = ldpc_iterations
+    step_results["max_ldpc_iterations"] = max_iterations
 
     # decoding
     decoded_ms_df = pd.DataFrame(decoded_ms,
-- 
2.43.0


From 2047d5517b1fbbc570e14c4db3fc432651000e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:22 +0000
Subject: [PATCH 38/55] fix: command recorded by the simulation runners did not
 repeat the run

---
 .../classifying_entropy_decoder_over_awgn_channel.py          | 4 ++--
 runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py | 2 +-
 runs/HC_eilat_July_2018/simulate_gallager_bf.py               | 2 +-
 .../simulated_data_classifying_dude_decoder.py                | 2 +-
 .../simulated_data_classifying_entropy_decoder.py             | 2 +-
 runs/HC_eilat_July_2018/simulated_data_combined_decoder.py    | 2 +-
 runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py    | 2 +-
 runs/HC_eilat_July_2018/simulated_data_pretrained_model.py    | 4 ++--
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
index df41cc9..d98e104 100644
--- a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
+++ b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
@@ -247,9 +247,9 @@ if __name__ == '__main__':
           f'--msg_delay {args.msg_delay} --dec_type {args.dec_type} --classifier_train {args.classifier_train} ' \
           f'--n_clusters {args.n_clusters} --cluster {args.cluster} --delta {args.delta} ' \
           f'--conf_center {args.conf_center} --model_length {args.model_length} ' \
-          f'--conf_slope {args.conf_slope} --entropy_threshold {thr} --clipping_factor {clipping_factor}'
+          f'--conf_slope {args.conf_slope} --ent_threshold {thr} --clipping_factor {clipping_factor}'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if window_len is not None:
         cmd += f' --window_len {window_len}'
     else:
diff --git a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
index 2a68701..abd72d5 100644
--- a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
+++ b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
@@ -264,7 +264,7 @@ if __name__ == '__main__':
     else:
         cmd += ' --window_len 0'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if processes is not None:
         cmd += f' --processes {processes}'
 
diff --git a/runs/HC_eilat_July_2018/simulate_gallager_bf.py b/runs/HC_eilat_July_2018/simulate_gallager_bf.py
index 0efe8e3..ab84494 100644
--- a/runs/HC_eilat_July_2018/simulate_gallager_bf.py
+++ b/runs/HC_eilat_July_2018/simulate_gallager_bf.py
@@ -192,7 +192,7 @@ if __name__ == '__main__':
     else:
         cmd += ' --window_len 0'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
 
     os.mkdir(path)
     with open(os.path.join(path, "cmd.txt"), 'w') as f:
diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
index 776054a..655c582 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
@@ -214,7 +214,7 @@ if __name__ == '__main__':
           f'--cluster {args.cluster} --model_length {args.model_length} --context_length {args.context_length}'
 
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if processes is not None:
         cmd += f' --processes {processes}'
 
diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
index 8bb73e2..6c39da4 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
@@ -270,7 +270,7 @@ if __name__ == '__main__':
     else:
         cmd += ' --window_len 0'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if processes is not None:
         cmd += f' --processes {processes}'
 
diff --git a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
index df53363..c450a96 100644
--- a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
@@ -289,7 +289,7 @@ if __name__ == '__main__':
           f'--conf_slope {args.conf_slope} --learn {args.learn} --ent_threshold {thr} --clipping_factor {clipping_factor} ' \
           f'--flip {args.flip}'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if window_len is not None:
         cmd += f' --window_len {window_len}'
     else:
diff --git a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
index da4991f..fe3e39e 100644
--- a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
+++ b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
@@ -254,7 +254,7 @@ if __name__ == '__main__':
           f'--valid_factor {args.valid_factor} --invalid_factor {args.invalid_factor} --conf_center {args.conf_center} ' \
           f'--conf_slope {args.conf_slope} --learn {args.learn}'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if window_len is not None:
         cmd += f' --window_len {window_len}'
     else:
diff --git a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
index 80abfb7..88be63f 100644
--- a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
+++ b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
@@ -212,9 +212,9 @@ if __name__ == '__main__':
     cmd = f'python {__file__} --minflip {args.minflip} --maxflip {args.maxflip} --nflips {args.nflips}  ' \
           f'--ldpciterations {ldpc_iterations} --multiply_data {args.multiply_data} --msg_delay {args.msg_delay} ' \
           f'--dec_type {args.dec_type} --conf_center {args.conf_center} --model_length {args.model_length} ' \
-          f'--conf_slope {args.conf_slope} --entropy_threshold {thr} --clipping_factor {clipping_factor}'
+          f'--conf_slope {args.conf_slope} --ent_threshold {thr} --clipping_factor {clipping_factor}'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if window_len is not None:
         cmd += f' --window_len {window_len}'
     else:
-- 
2.43.0


From 0f00327f9e14fe3e02db012ebacba99eda2ac528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:05 +0000
Subject: [PATCH 39/55] fix: encode_data crashed, the encoder takes arrays of
 bits

---
 runs/HC_eilat_July_2018/ecncoding_data.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/runs/HC_eilat_July_2018/ecncoding_data.py b/runs/HC_eilat_July_2018/ecncoding_data.py
index b7d5e15..a90c56f 100644
--- a/runs/HC_eilat_July_2018/ecncoding_data.py
+++ b/runs/HC_eilat_July_2018/ecncoding_data.py
@@ -2,9 +2,11 @@ import pickle
 from bitstring import Bits
 from ldpc.encoder import EncoderWiFi
 import random
+import numpy as np
+from numpy.typing import NDArray
 
 
-def encode_data(encoder: EncoderWiFi) -> list[Bits]:
+def encode_data(encoder: EncoderWiFi) -> list[NDArray[np.int_]]:
     with open('data/hc_to_ship.pickle', 'rb') as f:
         hc_tx = pickle.load(f)
 
@@ -14,16 +16,16 @@ def encode_data(encoder: EncoderWiFi) -> list[Bits]:
         if len(binary_data) <= encoder.k:
             pad_len = encoder.k - len(binary_data)
             padded = binary_data + Bits(uint=random.getrandbits(pad_len), length=pad_len)
-            encoded.append(encoder.encode(padded))
+            encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         else:  # need to split buffer to several codewords
             for i in range(len(binary_data)//encoder.k):
                 partial = binary_data[i*encoder.k: (i+1)*encoder.k]
-                encoded.append(encoder.encode(partial))
+                encoded.append(encoder.encode(np.array(partial, dtype=np.int_)))
 
             if (i+1)*encoder.k < len(binary_data):  # remaining tail to encode
                 pad_len = encoder.k - len(binary_data[(i+1)*encoder.k:])
                 padded = binary_data[(i+1)*encoder.k:] + Bits(uint=random.getrandbits(pad_len), length=pad_len)
-                encoded.append(encoder.encode(padded))
+                encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
     return encoded
 
 
-- 
2.43.0


From 5601d622fa6c3b77eee183fc518c2addf9e642f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:20 +0000
Subject: [PATCH 40/55] fix: forcing bits without a window limit crashed

---
 decoders/classifiying_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 517558d..9688c21 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -224,7 +224,7 @@ class ClassifyingEntropyDecoder(Decoder):
                 model_bits = np.array(model_llr < 0, dtype=np.int_)
                 samples = np.array(channel_sample < 0, dtype=np.int_)
                 size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
-                if size>= self.window_length:
+                if self.window_length is not None and size >= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
                         self.models_entropy[cluster_id] < self.entropy_threshold]
                     if structural_elements.size > 0:
-- 
2.43.0


From 27c5feffde1c7723642b45dfc129c1834a14ae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:20 +0000
Subject: [PATCH 41/55] fix: default bit flipping variant of the entropy runner
 does not exist

---
 .../simulated_data_classifying_entropy_decoder.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
index 6c39da4..3bf983e 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
@@ -38,7 +38,7 @@ parser.add_argument("--n_clusters", default=1, help="number of clusters", type=i
 parser.add_argument("--msg_delay", default="50000", help="sampling delay", type=str)
 parser.add_argument("--cluster", default=1, help="enable or disable clustering", type=int)
 parser.add_argument("--model_length", default="info", help="model length", type=str)
-parser.add_argument("--wbf_variant", default=0, help="which wbf variant to use", type=int)
+parser.add_argument("--wbf_variant", default=1, help="which wbf variant to use", type=int)
 parser.add_argument("--channel_type", default="bsc", help="which chanel model", type=str)
 
 args = parser.parse_args()
-- 
2.43.0


From 001a22e0e81637a433a77b551313ad777e720c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:20 +0000
Subject: [PATCH 42/55] fix: mavlink based experiment programs ignored the
 option to learn the model online

---
 runs/Feb_2022/experimental_mavlink_based.py | 2 +-
 runs/Feb_2023/experimental_mavlink_based.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runs/Feb_2022/experimental_mavlink_based.py b/runs/Feb_2022/experimental_mavlink_based.py
index fb25d7b..cc26365 100644
--- a/runs/Feb_2022/experimental_mavlink_based.py
+++ b/runs/Feb_2022/experimental_mavlink_based.py
@@ -49,7 +49,7 @@ else:
 k = 984
 bs = BufferSegmentation(meta.protocol_parser)
 _, _, buffer_structure = bs.segment_buffer(np.packbits(tx[0, :k]).tobytes())  # segment first buffer to get structure
-data_model = BufferModel.load('data/model_2022.json')
+data_model = None if bool(args.learn) else BufferModel.load('data/model_2022.json')
 h = AList.from_file("spec/4098_3095_non_sys_h.alist")
 number_of_messages, n = rx.shape
 window_len = args.window_len if args.window_len > 0 else None
diff --git a/runs/Feb_2023/experimental_mavlink_based.py b/runs/Feb_2023/experimental_mavlink_based.py
index ae5ddc9..f90c5ec 100644
--- a/runs/Feb_2023/experimental_mavlink_based.py
+++ b/runs/Feb_2023/experimental_mavlink_based.py
@@ -77,7 +77,7 @@ else:
 
 bs = BufferSegmentation(meta.protocol_parser)
 _, _, buffer_structure = bs.segment_buffer(np.packbits(tx[0, :k]).tobytes())  # segment first buffer to get structure
-data_model = BufferModel.load('data/model_2023.json')
+data_model = None if bool(args.learn) else BufferModel.load('data/model_2023.json')
 number_of_messages, n = rx.shape
 window_len = args.window_len if args.window_len > 0 else None
 model_length = k
-- 
2.43.0


From 8a39be36e409641dac0d2017bd96ca8d4a1758c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:20 +0000
Subject: [PATCH 43/55] fix: command recorded by the experiment programs did
 not repeat the run

---
 runs/Feb_2022/experimental_mavlink_based.py   | 2 +-
 runs/Feb_2022/simulation_rafael_code.py       | 2 +-
 runs/Feb_2023/experimental_data_run_feb_23.py | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/runs/Feb_2022/experimental_mavlink_based.py b/runs/Feb_2022/experimental_mavlink_based.py
index cc26365..9a64b98 100644
--- a/runs/Feb_2022/experimental_mavlink_based.py
+++ b/runs/Feb_2022/experimental_mavlink_based.py
@@ -79,7 +79,7 @@ logger.info(f"seg_iter: {args.segiterations}")
 
 cmd = f'python {__file__} --ldpciterations {ldpc_iterations}  --learn {args.learn} --segiterations {args.segiterations} ' \
       f'--valid_factor {args.valid_factor} --invalid_factor {args.invalid_factor} --valid_threshold {args.valid_threshold} ' \
-      f'--invalid_threshold {args.invalid_threshold} --window_len {window_len} --conf_center {args.conf_center} ' \
+      f'--invalid_threshold {args.invalid_threshold} --conf_center {args.conf_center} ' \
       f'--conf_slope {args.conf_slope} --dec_type {args.dec_type} --experiment_date {args.experiment_date}'
 
 if window_len is not None:
diff --git a/runs/Feb_2022/simulation_rafael_code.py b/runs/Feb_2022/simulation_rafael_code.py
index 2c8d14d..8b17225 100644
--- a/runs/Feb_2022/simulation_rafael_code.py
+++ b/runs/Feb_2022/simulation_rafael_code.py
@@ -71,7 +71,7 @@ if window_len is not None:
 else:
     cmd += ' --window_len 0'
 if args.N > 0:
-    cmd += f' --N {n}'
+    cmd += f' --N {args.N}'
 if processes is not None:
     cmd += f' --processes {processes}'
 
diff --git a/runs/Feb_2023/experimental_data_run_feb_23.py b/runs/Feb_2023/experimental_data_run_feb_23.py
index df588d2..3df93b2 100644
--- a/runs/Feb_2023/experimental_data_run_feb_23.py
+++ b/runs/Feb_2023/experimental_data_run_feb_23.py
@@ -101,7 +101,8 @@ logger.info(f"msg_type: {args.msg_type}")
 
 cmd = f'python {__file__} --ldpciterations {ldpc_iterations} --ent_threshold {thr} --clipping_factor {clipping_factor} ' \
       f'--conf_center {args.conf_center} --conf_slope {args.conf_slope} --dec_type {args.dec_type} --model_length ' \
-      f'{args.model_length} --experiment_date {args.experiment_date} --raw_ber {args.raw_ber} --msg_type {args.msg_type}'
+      f'{args.model_length} --experiment_date {args.experiment_date} --raw_ber {args.raw_ber} --msg_type {args.msg_type} ' \
+      f'--separate_models {args.separate_models}'
 if window_len is not None:
     cmd += f' --window_len {window_len}'
 else:
-- 
2.43.0


From 0eaddc0ec21667de304144579ef52d7bcce6d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:53 +0000
Subject: [PATCH 44/55] fix: prob_with_alphabet took floating point samples
 narrower or wider than 64 bits

---
 utils/information_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/information_theory.py b/utils/information_theory.py
index 467d695..9b2b9ab 100644
--- a/utils/information_theory.py
+++ b/utils/information_theory.py
@@ -13,7 +13,7 @@ def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_],
     :return: a tuple: prob, alphabet. prob is a 2D array of probabilities. Rows are RV dimension, and columns
     are alphabet size, alphabet is a list with the inferred alphabet.
     """
-    if data.dtype in [float, np.dtype(np.float_)]:
+    if np.issubdtype(data.dtype, np.floating):
         raise UnsupportedDtype()
     # TODO - add ability to return joint distribution - can be done with np.unique along axis
 
-- 
2.43.0


From a67e2c61cea015c272f0c57c9bd2b90aec3b1e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:43 +0000
Subject: [PATCH 45/55] fix: command recorded by the clustering analysis could
 not be parsed again

---
 runs/clsutering_analysis/clustering_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/clsutering_analysis/clustering_analysis.py b/runs/clsutering_analysis/clustering_analysis.py
index df3c421..5358090 100644
--- a/runs/clsutering_analysis/clustering_analysis.py
+++ b/runs/clsutering_analysis/clustering_analysis.py
@@ -113,7 +113,7 @@ if __name__ == "__main__":
         logger.info(f"Starting {n_classes} classes, {p} p, {n_training} training, train with errors {train_with_errors}, "
                     f"shuffle {shuffle}, {number_of_runs} runs")
         cmd = f"python {__file__} --n_classes {n_classes} --p {p} --n_training {n_training} --train_with_errors " \
-              f"{train_with_errors} --shuffle {shuffle} --n_runs {number_of_runs}"
+              f"{int(train_with_errors)} --shuffle {int(shuffle)} --n_runs {number_of_runs} --n_jobs {n_jobs}"
         with open(os.path.join(path, "cmd.txt"), "w") as f:
             f.write(cmd)
         logger.info(cmd)
-- 
2.43.0


From e6003a078899225b8dccf775206802426c43c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:43 +0000
Subject: [PATCH 46/55] fix: clustering analysis flipped only a part of the
 requested share of bits, all near the start of a buffer

---
 runs/clsutering_analysis/clustering_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/clsutering_analysis/clustering_analysis.py b/runs/clsutering_analysis/clustering_analysis.py
index 5358090..8f97363 100644
--- a/runs/clsutering_analysis/clustering_analysis.py
+++ b/runs/clsutering_analysis/clustering_analysis.py
@@ -71,7 +71,7 @@ def analyze(run_idx: int):
                  rng.integers(low=0, high=2, size=pad_len))
             )  # pad with random bits
             if no_errors > 0 and (train_with_errors or tx_idx >= n_training):
-                errors = rng.choice(k // n_classes, size=no_errors // n_classes, replace=False)
+                errors = rng.choice(k, size=no_errors, replace=False)
                 errors_bool = np.zeros(k, dtype=np.bool_)
                 errors_bool[errors] = True
                 buffers[tx_idx * n_classes + class_idx] = np.bitwise_xor(buffers[tx_idx * n_classes + class_idx], errors_bool)
-- 
2.43.0


From 942d31418335e3642cc57029d4d20b44d3f66cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:43 +0000
Subject: [PATCH 47/55] fix: clustering analysis without errors in training
 trained on buffers with errors, or tested on buffers without

---
 runs/clsutering_analysis/clustering_analysis.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/runs/clsutering_analysis/clustering_analysis.py b/runs/clsutering_analysis/clustering_analysis.py
index 8f97363..c9e21d8 100644
--- a/runs/clsutering_analysis/clustering_analysis.py
+++ b/runs/clsutering_analysis/clustering_analysis.py
@@ -70,23 +70,21 @@ def analyze(run_idx: int):
                  class_idx * real_info_bits_per_buffer // n_classes:(class_idx + 1) * real_info_bits_per_buffer // n_classes],
                  rng.integers(low=0, high=2, size=pad_len))
             )  # pad with random bits
-            if no_errors > 0 and (train_with_errors or tx_idx >= n_training):
-                errors = rng.choice(k, size=no_errors, replace=False)
-                errors_bool = np.zeros(k, dtype=np.bool_)
-                errors_bool[errors] = True
-                buffers[tx_idx * n_classes + class_idx] = np.bitwise_xor(buffers[tx_idx * n_classes + class_idx], errors_bool)
             actual_classes[tx_idx * n_classes + class_idx] = class_idx
 
     if shuffle:
         X_train, X_test, y_train, y_test = train_test_split(
             buffers, actual_classes, train_size=n_training, shuffle=True, stratify=actual_classes
         )
-        buffers = np.vstack((X_train, X_test))
     else:
         X_train, X_test, y_train, y_test = train_test_split(
             buffers, actual_classes, train_size=n_training, shuffle=False
         )
-        buffers = np.vstack((X_train, X_test))
+    for corrupted in (X_train, X_test) if train_with_errors else (X_test,):
+        for buffer in corrupted:
+            errors = rng.choice(k, size=no_errors, replace=False)
+            buffer[errors] = ~buffer[errors]
+    buffers = np.vstack((X_train, X_test))
     clustering_labels = analyze_mine(buffers, n_buffers)
     clustering_labels, l_map = relabel(clustering_labels, n_classes, y_test)
     clustering_stats = stats(y_test, clustering_labels)
-- 
2.43.0


From 603e508c606e675046ccdaad7afbebbeae6ec7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:40 +0000
Subject: [PATCH 48/55] fix: field classifier analysis crashed, the encoder
 takes arrays of bits

---
 scripts/classifier_analysis.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scripts/classifier_analysis.py b/scripts/classifier_analysis.py
index 728a60b..cb91f4c 100644
--- a/scripts/classifier_analysis.py
+++ b/scripts/classifier_analysis.py
@@ -59,17 +59,18 @@ for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
         padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
     elif args.n_clusters == 2:
         padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576))
-        encoded.extend((encoder.encode(padded), encoder.encode(binary_data[576:])))
+        encoded.extend((encoder.encode(np.array(padded, dtype=np.int_)),
+                        encoder.encode(np.array(binary_data[576:], dtype=np.int_))))
     elif args.n_clusters == 3:
         padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
     encoded.extend(encoded)
-- 
2.43.0


From 21fa00b83fcd2a846183afb22d8618d413292625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:40 +0000
Subject: [PATCH 49/55] fix: field classifier analysis found no messages in
 buffers of three clusters

---
 scripts/classifier_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/classifier_analysis.py b/scripts/classifier_analysis.py
index cb91f4c..682c57e 100644
--- a/scripts/classifier_analysis.py
+++ b/scripts/classifier_analysis.py
@@ -86,11 +86,11 @@ elif args.n_clusters == 2:
     _, _, buffer_structure = bs.segment_buffer(binary_data[576:].tobytes())
     buffer_structures.append(buffer_structure)
 elif args.n_clusters == 3:
-    _, _, buffer_structure = bs.segment_buffer(binary_data[:416])
+    _, _, buffer_structure = bs.segment_buffer(binary_data[:416].tobytes())
     buffer_structures = [buffer_structure]
-    _, _, buffer_structure = bs.segment_buffer(binary_data[416:864])
+    _, _, buffer_structure = bs.segment_buffer(binary_data[416:864].tobytes())
     buffer_structures.append(buffer_structure)
-    _, _, buffer_structure = bs.segment_buffer(binary_data[864:])
+    _, _, buffer_structure = bs.segment_buffer(binary_data[864:].tobytes())
     buffer_structures.append(buffer_structure)
 else:
     raise ValueError("n_clusters must be 1, 2 or 3")
-- 
2.43.0


From 00209de8446d8443522fca41c09f90fd75db89df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:40 +0000
Subject: [PATCH 50/55] fix: field classifier analysis saved one cluster label
 for all buffers

---
 scripts/classifier_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/classifier_analysis.py b/scripts/classifier_analysis.py
index 682c57e..09d998d 100644
--- a/scripts/classifier_analysis.py
+++ b/scripts/classifier_analysis.py
@@ -323,7 +323,8 @@ def simulation_step(p: float) -> dict[str, Any]:
 
     classifier_df = pd.DataFrame({"good_fields": good_fields, "bad_fields": bad_fields,
                                   "good_bits": good_bits, "bad_bits": bad_bits,
-                                  "damaged_fields": damaged_fields, "cluster_label": running_idx})
+                                  "damaged_fields": damaged_fields,
+                                  "cluster_label": np.arange(n) % args.n_clusters})
     step_results["classifier"] = classifier_df
     forcing_df = pd.DataFrame({"forced_fields": forced_fields, "forced_bits": forced_bits,
                                "correctly_forced_bits": correctly_forced_bits,
-- 
2.43.0


From c7e7e41511459b15d4f522c7487a749bbb0d4fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:43 +0000
Subject: [PATCH 51/55] fix: field classifier analysis could not save its
 results without a window

---
 scripts/classifier_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/classifier_analysis.py b/scripts/classifier_analysis.py
index 09d998d..60fd7c7 100644
--- a/scripts/classifier_analysis.py
+++ b/scripts/classifier_analysis.py
@@ -234,7 +234,7 @@ def simulation_step(p: float) -> dict[str, Any]:
               for _ in range(n))
     )
     step_results: dict[str, Any] = {"p": p, "number_of_buffers": n, "no_errors": no_errors, "errors": errors,
-                                    "raw_ber": no_errors / encoder.n, "buffer_len": encoder.n, "window_len": window_len,
+                                    "raw_ber": no_errors / encoder.n, "buffer_len": encoder.n, "window_len": args.window_len,
                                     "n_clusters": args.n_clusters, "learn": args.learn, "model_length": model_length}
 
     running_idx = 0
-- 
2.43.0


From 6f12d9ad4904c73b85135f7fa54680cba53c48f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:16 +0000
Subject: [PATCH 52/55] fix: training of the bit model crashed, the encoder
 takes arrays of bits

---
 scripts/train_estimator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scripts/train_estimator.py b/scripts/train_estimator.py
index 4fd542f..da288f7 100644
--- a/scripts/train_estimator.py
+++ b/scripts/train_estimator.py
@@ -34,17 +34,18 @@ for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
         padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
     elif args.n_clusters == 2:
         padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k-576))
-        encoded.extend((encoder.encode(padded), encoder.encode(binary_data[576:])))
+        encoded.extend((encoder.encode(np.array(padded, dtype=np.int_)),
+                        encoder.encode(np.array(binary_data[576:], dtype=np.int_))))
     elif args.n_clusters == 3:
         padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k-416))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864-416)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
         padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224-864)))
-        encoded.append(encoder.encode(padded))
+        encoded.append(encoder.encode(np.array(padded, dtype=np.int_)))
 
 data = np.zeros((len(encoded), encoder.n), dtype=np.uint16)
 for i, encoded_bits in enumerate(encoded):
-- 
2.43.0


From ff1821debdd29f696cbbd86174ee9f5b654f3522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:16 +0000
Subject: [PATCH 53/55] fix: buffer segmentation example crashed, the buffer
 model predicts three values

---
 scripts/buffer_segmentation_example.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/buffer_segmentation_example.py b/scripts/buffer_segmentation_example.py
index 1f9fdb7..2b6ca3c 100644
--- a/scripts/buffer_segmentation_example.py
+++ b/scripts/buffer_segmentation_example.py
@@ -27,9 +27,9 @@ buffer_model2 = BufferModel.load('test_fields_collection.json')
 
 # test prediction on good buffer with hard bit values, return prediction per field
 bit_arr = np.unpackbits(np.frombuffer(good_buffer, dtype=np.uint8))
-field_prediction, bitwise_prediction = buffer_model2.predict(bit_arr, buffer_structure)
+field_prediction, bitwise_prediction, _ = buffer_model2.predict(bit_arr, buffer_structure)
 # test prediction on bad buffer by sending a bytes object, return prediction per field
-field_prediction, bitwise_prediction = buffer_model2.predict(bad_buffer, buffer_structure)
+field_prediction, bitwise_prediction, _ = buffer_model2.predict(bad_buffer, buffer_structure)
 
 # train models
 window_size = None
@@ -52,7 +52,7 @@ for tx in hc_bin_data:
 #         buffer_model.add_sample(field_name, vals[0], vals[1])
 
 # make prediction regarding good buffer
-p_good_field, p_good_bits = buffer_model.predict(np.array(hc_bin_data[-1], dtype=np.uint8), structure)
+p_good_field, p_good_bits, _ = buffer_model.predict(np.array(hc_bin_data[-1], dtype=np.uint8), structure)
 # corrupt some bits
 # take last buffer
 corrupt_tx = BitArray(hc_bin_data[-1])
@@ -63,7 +63,7 @@ error_indices = np.sort(rng.choice(50*8, size=no_errors, replace=False))  # firs
 corrupt_tx.invert(error_indices)
 bit_arr = np.array(corrupt_tx, dtype=np.uint8)
 # make prediction regarding corrupt buffer
-p_bad_field, p_bad_bits = buffer_model.predict(bit_arr, structure)
+p_bad_field, p_bad_bits, _ = buffer_model.predict(bit_arr, structure)
 # save model
 if window_size is None:
     buffer_model.save('model_2018_all.json')
-- 
2.43.0


From cd8c3b2b78269d18483f0a0a1f3333c2f3584f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:42 +0000
Subject: [PATCH 54/55] fix: generating a dialect crashed with current
 pymavlink, its error limit option is gone

---
 mavlink_utils/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mavlink_utils/utils.py b/mavlink_utils/utils.py
index bd9bbed..d1c24bf 100644
--- a/mavlink_utils/utils.py
+++ b/mavlink_utils/utils.py
@@ -12,7 +12,6 @@ def dialect_creator(output_dialects_path: str, xml_path: str, protocol_language:
                        wire_protocol=mavparse.PROTOCOL_1_0,
                        language=protocol_language,
                        validate=mavgen.DEFAULT_VALIDATE,
-                       error_limit=mavgen.DEFAULT_ERROR_LIMIT,
                        strict_units=mavgen.DEFAULT_STRICT_UNITS)
     args = [xml_path]
     mavgen.mavgen(opts, args)
-- 
2.43.0


From 53a1240716df07f853071ba1f09f41d05d800461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:51 +0000
Subject: [PATCH 55/55] fix: unified decoding of the 2023 experiment used the
 telemetry code for images

---
 runs/Feb_2023/experimental_data_unified_decoder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/runs/Feb_2023/experimental_data_unified_decoder.py b/runs/Feb_2023/experimental_data_unified_decoder.py
index 5dc4871..f1c0fa3 100644
--- a/runs/Feb_2023/experimental_data_unified_decoder.py
+++ b/runs/Feb_2023/experimental_data_unified_decoder.py
@@ -85,7 +85,6 @@ else:
 
 bs = BufferSegmentation(meta.protocol_parser)
 _, _, buffer_structure = bs.segment_buffer(np.packbits(tx[0, :k]).tobytes())  # segment first buffer to get structure
-h = AList.from_file("spec/4098_3095_non_sys_h.alist")
 number_of_messages, n = rx.shape
 window_len = args.window_len if args.window_len > 0 else None
 data_model = None if bool(args.learn) else BufferModel.load('data/model_2023.json')
-- 
2.43.0

