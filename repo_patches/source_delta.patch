From 5e98a798dec8c543237728e40af9f68186d76a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:33 +0000
Subject: [PATCH 01/35] fix: nearest-header search stopped at an exact match
 excluded by max_len

The early exit tested the candidate distance even when the candidate had been
rejected for being longer than max_len, so closer admissible messages that come
later in the dialect were never considered.
---
 protocol_meta/msg_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol_meta/msg_header.py b/protocol_meta/msg_header.py
index d10e819..9a1243e 100644
--- a/protocol_meta/msg_header.py
+++ b/protocol_meta/msg_header.py
@@ -58,7 +58,7 @@ def hamming_distance_2_valid_header(buffer: bytes, max_len: Optional[int] = None
         if candidate_dist < min_dist and (max_len is None or msg_len <= max_len):
             min_dist = candidate_dist
             chosen_msg_id = msg_id
-        if candidate_dist == 0:
+        if min_dist == 0:
             break
 
     dist += min_dist
-- 
2.43.0


From 1bd02d167efa4889be2d77398680f037704fda48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:33 +0000
Subject: [PATCH 02/35] fix: Markov source drew every sample from the row of
 the (zero) array tail

The transition row must be selected by the `order` states preceding sample i.
---
 utils/random_sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/random_sources.py b/utils/random_sources.py
index 2792bb1..fc00fbe 100644
--- a/utils/random_sources.py
+++ b/utils/random_sources.py
@@ -16,7 +16,7 @@ def generate_markov_samples(transition_matrix, initial_state, num_samples):
 
     # Generate samples
     for i in range(order, num_samples):
-        current_states = states[-order:]
+        current_states = states[i - order:i]
         probabilities = transition_matrix[tuple(current_states)]
         states[i] = np.random.choice(range(num_states), p=probabilities)
     return states
-- 
2.43.0


From 10901361edd97a7fc615c115342789ca12faab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:33 +0000
Subject: [PATCH 03/35] fix: BER wrapped around for unsigned bit arrays and
 failed for boolean ones

uint8 0 - 1 is 255, so the reported bit error rate could exceed 1.
---
 utils/performance_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/performance_analysis.py b/utils/performance_analysis.py
index 7450841..362a430 100644
--- a/utils/performance_analysis.py
+++ b/utils/performance_analysis.py
@@ -39,7 +39,7 @@ def ber(ground_truth: np.ndarray, predicted: np.ndarray):
     :param predicted: array of bits
     :return: BER
     """
-    return np.sum(np.abs(ground_truth - predicted)) / len(ground_truth)
+    return np.sum(ground_truth != predicted) / len(ground_truth)
 
 
 __all__ = ['stats', 'ber']
-- 
2.43.0


From c9220c6630ab91ef931ea6d2a4dc3cfe8cf0e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:33 +0000
Subject: [PATCH 04/35] fix: stats() returned NaN recall and F1 for classes
 absent from the data

numpy booleans are never `is True`, so the documented convention for absent
classes was unreachable, and recall was 0/0.
---
 utils/performance_analysis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/performance_analysis.py b/utils/performance_analysis.py
index 362a430..c8331b9 100644
--- a/utils/performance_analysis.py
+++ b/utils/performance_analysis.py
@@ -7,14 +7,15 @@ def stats(actual_labels=None, predicted_labels=None, cm=None):
         cm = confusion_matrix(actual_labels, predicted_labels)
     no_true_positives = np.sum(cm, axis=1) == 0
     n_classes = cm.shape[0]
-    _recall = np.diag(cm) / np.sum(cm, axis=1)
+    # a class with no actual samples has nothing to miss, its recall is 1
+    _recall = np.where(no_true_positives, 1, np.diag(cm) / np.where(no_true_positives, 1, np.sum(cm, axis=1)))
     if np.sum(cm, axis=0).all() > 0:  # if there are some predictions for all classes
         _precision = np.diag(cm) / np.sum(cm, axis=0)
     else:  # some classes have no predictions
         _precision = np.zeros(n_classes)
         for label in range(n_classes):
             if np.sum(cm[:, label]) == 0:  # no predictions for this class
-                _precision[label] = 1 if no_true_positives[label] is True else 0
+                _precision[label] = 1 if no_true_positives[label] else 0
                 # if there are no true positives, then precision is 1, else 0
             else:  # there are predictions for this class
                 _precision[label] = cm[label, label] / np.sum(cm[:, label])
@@ -27,7 +28,7 @@ def stats(actual_labels=None, predicted_labels=None, cm=None):
             if denominator[label] > 0:  # if there are some correct predictions for this class
                 _f1[label] = 2 * (_precision[label] * _recall[label]) / denominator[label]
             else:  # if there are no correct predictions for this class
-                _f1[label] = 1 if no_true_positives[label] is True else 0  # if there are no true positives, then 1, else 0
+                _f1[label] = 1 if no_true_positives[label] else 0  # if there are no true positives, then 1, else 0
     _accuracy = np.sum(np.diag(cm)) / np.sum(cm)
     return cm, _recall, _precision, _f1, _accuracy
 
-- 
2.43.0


From 05fe5e15bec698a5c44ad1bbfe260b20c8d06821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:33 +0000
Subject: [PATCH 05/35] fix: Hellinger distance of (nearly) equal distributions
 could be NaN

The affinity may exceed 1 by a rounding error, making the square root NaN.
---
 utils/information_theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/information_theory.py b/utils/information_theory.py
index 84cbe60..217c714 100644
--- a/utils/information_theory.py
+++ b/utils/information_theory.py
@@ -99,9 +99,9 @@ def hellinger(pk: npt.NDArray[Any], qk: npt.NDArray[Any]) -> npt.NDArray[np.floa
     row is a dimension, and the number of columns equals the support size.
     """
     if pk.ndim == 2 and qk.ndim == 2:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk), axis=1))  # type: ignore
+        return np.sqrt(np.maximum(1 - np.sum(np.sqrt(pk * qk), axis=1), 0))  # type: ignore
     if pk.ndim == 1 and qk.ndim == 1:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk)))  # type: ignore
+        return np.sqrt(np.maximum(1 - np.sum(np.sqrt(pk * qk)), 0))  # type: ignore
     raise ValueError("incorrect dimensions")
 
 
-- 
2.43.0


From eb668e894e98cf125548eb8b37b088bf2481ece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:33 +0000
Subject: [PATCH 06/35] fix: Cluster.hard_bits compared a count of ones with a
 probability of zeros

---
 inference/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/clustering.py b/inference/clustering.py
index 489486d..1b69886 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -15,7 +15,7 @@ class Cluster:
 
     @property
     def hard_bits(self) -> NDArray[np.int_]:
-        return np.array(self._data[:, 1] > self.dist[:, 0], dtype=np.int_)
+        return np.array(self._data[:, 1] > self._data[:, 0], dtype=np.int_)
 
     @property
     def dist(self) -> NDArray[np.float_]:
-- 
2.43.0


From 232b562f0f4581bd4f4606c961037b81e0871fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:33 +0000
Subject: [PATCH 07/35] fix: a constant training buffer created a single column
 cluster

prob() infers the alphabet from the sample, so an all-zeros (or all-ones) buffer
gave a cluster with one column and classify() failed later with IndexError.
---
 inference/clustering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inference/clustering.py b/inference/clustering.py
index 1b69886..5936be9 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -2,7 +2,7 @@ from itertools import combinations
 from bitstring import Bits
 from numpy.typing import NDArray
 import numpy as np
-from utils.information_theory import prob, hellinger
+from utils.information_theory import hellinger
 from utils.bit_operations import hamming_distance
 from scipy.stats import entropy
 
@@ -62,8 +62,8 @@ class BufferClassifier:
     def classify(self, buffer: Bits) -> int:
         self.samples += 1
         if self.samples < self.min_data_size:
-            sample = np.array(buffer, dtype=np.int_)[np.newaxis].T
-            self.__add_cluster(prob(sample))
+            sample = np.array(buffer, dtype=np.int_)
+            self.__add_cluster(np.column_stack((sample == 0, sample == 1)))
             return -1
         if not self.init:
             self.merge_clusters()
-- 
2.43.0


From 2e78166a67bd6341c28901884870841648ce1e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:33 +0000
Subject: [PATCH 08/35] fix: ClassifyingDudeDecoder overwrote the caller's
 channel llr

---
 decoders/classifying_DUDE_decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoders/classifying_DUDE_decoder.py b/decoders/classifying_DUDE_decoder.py
index eb321e1..a5e79d1 100644
--- a/decoders/classifying_DUDE_decoder.py
+++ b/decoders/classifying_DUDE_decoder.py
@@ -98,6 +98,7 @@ class ClassifyingDudeDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
         model_llr = self.model_prediction(channel_bits, label)  # type: ignore
+        channel_llr = np.array(channel_llr, dtype=np.float_)  # do not modify the caller's array
         channel_llr[self.model_bits_idx] += model_llr
         channel_llr = np.clip(channel_llr, -clipping, clipping)
         denoised_bits = np.array(channel_llr < 0, dtype=np.int_)
-- 
2.43.0


From e8ae0f49d31ef1a7036a35693599794d46aeada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:33 +0000
Subject: [PATCH 09/35] fix: ClassifyingEntropyDecoder clipped to the maximal
 signed llr

The bound is clipping_factor times the maximal channel llr magnitude; with the
signed maximum an all negative word gave a negative bound.
---
 decoders/classifiying_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 625c325..403e4f4 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -107,7 +107,7 @@ class ClassifyingEntropyDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         model_llr = self.model_prediction(len(channel_llr), label)  # type: ignore
         if isinstance(self.ldpc_decoder, LogSpaDecoder):
-            clipping = self.clipping_factor * max(channel_llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
             model_llr = np.clip(channel_llr + model_llr, -clipping, clipping)
             estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_llr)
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
-- 
2.43.0


From 4aae0350e3713b61fa865d1094d77f7398f226f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:33 +0000
Subject: [PATCH 10/35] fix: entropy bitwise decoders clipped to the maximal
 signed llr

Same defect as in ClassifyingEntropyDecoder.
---
 decoders/entropy_bitwise_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 3816b25..5d8b726 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -113,7 +113,7 @@ class EntropyBitwiseDecoder(Decoder):
         llr = observation.copy()
         if self.predefined_model or (self.model_data.size > 0 and self.model_data.shape[1] >= self.min_data):
             # if sufficient previous data exists
-            clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
             llr[self.structural_elements] += np.clip(  # add model llr to the observation
                 np.log(
                     (np.finfo(np.float_).eps + self.distribution[:, 0]) / (self.distribution[:, 1] + np.finfo(np.float_).eps)
@@ -490,7 +490,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         elif self.confidence_scheme == 5:  # ignore good model
             a_confidence = 0
 
-        clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+        clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
         # model llr is calculated as log(Pr(c=0 | model) / Pr(c=1| model))
         # add model llr to the observation
         if a_confidence > 0:
-- 
2.43.0


From 4649b120d9a8dbbc14dab711de2ba72a567b188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:33 +0000
Subject: [PATCH 11/35] fix: flipping decoder indexed the model by codeword
 position

structural_elements are codeword indices, the distribution is indexed by model
bit, so values were taken from other bits whenever info bits are not a prefix.
---
 decoders/entropy_bitwise_decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 5d8b726..142ceef 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -222,7 +222,8 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         # index of structural (low entropy) elements among codeword
         self.structural_elements = self.model_bits_idx[self.entropy < self.entropy_threshold]
         # round the probability of Pr(c=1)
-        self.structural_values = np.array(self.distribution[:, 1] > 0.5, dtype=np.int_)[self.structural_elements]
+        self.structural_values = np.array(self.distribution[:, 1] > 0.5, dtype=np.int_)[
+            self.entropy < self.entropy_threshold]
         prediction = np.array(observation, dtype=np.int_)
         prediction[self.structural_elements] = self.structural_values
         return prediction
-- 
2.43.0


From 8be0e928932f829820df1d57ba9bedfc93849eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:33 +0000
Subject: [PATCH 12/35] fix: confidence scheme 2 of the weighted decoder was
 unreachable

---
 decoders/entropy_bitwise_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 142ceef..edb95ca 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -478,7 +478,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if s > 0:
                 a_confidence *= a_confidence / s
                 b_confidence *= b_confidence / s
-        elif self.confidence_scheme == 1:  # normalize sum but prefer "good" model
+        elif self.confidence_scheme == 2:  # normalize sum but prefer "good" model
             s = 2 * a_confidence + b_confidence
             if s > 0:
                 a_confidence *= 2 * a_confidence / s
-- 
2.43.0


From 6cb813c0ca000f40f0248714db27ca75b4e51a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:33 +0000
Subject: [PATCH 13/35] fix: operator precedence in rescaling of the Bayes
 priors

The factor is meant to bring the prior mass up to min_size.
---
 decoders/entropy_bitwise_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index edb95ca..3017e75 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -354,7 +354,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
                 self.a_ones_prior //= gcd
                 self.a_zeros_prior //= gcd
                 if self.a_ones_prior[0] + self.a_zeros_prior[0] < self.min_size:
-                    m = self.min_size // self.a_ones_prior[0] + self.a_zeros_prior[0]
+                    m = self.min_size // (self.a_ones_prior[0] + self.a_zeros_prior[0])
                     self.a_ones_prior *= m
                     self.a_zeros_prior *= m
 
@@ -406,7 +406,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
                 self.b_ones_prior //= gcd
                 self.b_zeros_prior //= gcd
                 if self.b_ones_prior[0] + self.b_zeros_prior[0] < self.min_size:
-                    m = self.min_size // self.b_ones_prior[0] + self.b_zeros_prior[0]
+                    m = self.min_size // (self.b_ones_prior[0] + self.b_zeros_prior[0])
                     self.b_ones_prior *= m
                     self.b_zeros_prior *= m
             # estimate v using mode of beta variable
-- 
2.43.0


From cbec4b28b9e6c0037137710da679689fce0f7a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:44 +0000
Subject: [PATCH 14/35] fix: ClassifyingEntropyDecoder failed when all stored
 model bits are equal

prob() infers the alphabet from the data, so there was no column for ones.
---
 decoders/classifiying_decoder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 403e4f4..f180614 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -5,7 +5,7 @@ from numpy.typing import NDArray
 import numpy as np
 from typing import Optional
 from utils.custom_exceptions import IncorrectBufferLength
-from utils.information_theory import prob, entropy
+from utils.information_theory import entropy
 
 
 class ClassifyingEntropyDecoder(Decoder):
@@ -154,8 +154,7 @@ class ClassifyingEntropyDecoder(Decoder):
             # trim old messages according to window
             self.models_data[cluster_id] = self.models_data[cluster_id][
                                            :, self.models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.models_data[cluster_id])
-        v = dist[:, 1]
+        v = np.mean(self.models_data[cluster_id], axis=1)
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
         # mu equals p1
-- 
2.43.0


From c04eb202312367056423e458d6096c1a907e139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:44 +0000
Subject: [PATCH 15/35] fix: combined_decoder failed when all stored model bits
 are equal

prob() infers the alphabet from the data, so there was no column for ones.
---
 decoders/combined_decoder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 78c0a1e..4fc48b9 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -7,7 +7,7 @@ from numpy.typing import NDArray, ArrayLike
 import numpy as np
 from typing import Any
 from utils.custom_exceptions import IncorrectBufferLength
-from utils.information_theory import prob, entropy
+from utils.information_theory import entropy
 
 
 def confusion(predicted_positive: ArrayLike, actual_positive: NDArray[np.int_], negative: int) -> NDArray[np.int_]:
@@ -111,8 +111,7 @@ class CombinedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
-        v = dist[:, 1]
+        v = np.mean(self.entropy_models_data[cluster_id], axis=1)
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
         # mu equals p1
-- 
2.43.0


From 0c6a5b7005155a05cd1df4d1cc7ab519a0728de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:44 +0000
Subject: [PATCH 16/35] fix: combined_unified_decoder failed when all stored
 model bits are equal

prob() infers the alphabet from the data, so there was no column for ones.
---
 decoders/combined_unified_decoder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index a080bfd..20f52c6 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -7,7 +7,7 @@ from numpy.typing import NDArray, ArrayLike
 import numpy as np
 from typing import Any
 from utils.custom_exceptions import IncorrectBufferLength
-from utils.information_theory import prob, entropy
+from utils.information_theory import entropy
 
 
 def confusion(predicted_positive: ArrayLike, actual_positive: NDArray[np.int_], negative: int) -> NDArray[np.int_]:
@@ -121,8 +121,7 @@ class CombinedUnifiedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
-        v = dist[:, 1]
+        v = np.mean(self.entropy_models_data[cluster_id], axis=1)
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
         # mu equals p1
-- 
2.43.0


From 73b4c97c69379944aca98971f925269962174d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 17/35] fix: entropy bitwise decoders failed when all stored
 model bits are equal

prob() infers the alphabet from the data, so there was no column for ones.
---
 decoders/entropy_bitwise_decoder.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 3017e75..f7a95cc 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -7,7 +7,7 @@ from numpy.typing import NDArray
 import numpy as np
 from typing import Optional
 from utils.custom_exceptions import IncorrectBufferLength
-from utils.information_theory import prob, entropy
+from utils.information_theory import entropy
 
 
 class EntropyBitwiseDecoder(Decoder):
@@ -97,7 +97,8 @@ class EntropyBitwiseDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        p1 = np.mean(self.model_data, axis=1)
+        self.distribution = np.column_stack((1 - p1, p1))
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.float_]) -> NDArray[np.float_]:
@@ -207,7 +208,8 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        p1 = np.mean(self.model_data, axis=1)
+        self.distribution = np.column_stack((1 - p1, p1))
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.int_]) -> NDArray[np.int_]:
@@ -373,7 +375,8 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_a_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_a_data = self.model_a_data[:, self.model_a_data.shape[1] - self.window_length:]
-            self.a_distribution = prob(self.model_a_data)
+            p1 = np.mean(self.model_a_data, axis=1)
+            self.a_distribution = np.column_stack((1 - p1, p1))
             if self.corrected_dist:
                 v = self.a_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
@@ -425,7 +428,8 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_b_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_b_data = self.model_b_data[:, self.model_b_data.shape[1] - self.window_length:]
-            self.b_distribution = prob(self.model_b_data)
+            p1 = np.mean(self.model_b_data, axis=1)
+            self.b_distribution = np.column_stack((1 - p1, p1))
             if self.corrected_dist:
                 v = self.b_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
-- 
2.43.0


From b6641e27cb6d99f0271fd541936c0fb9e1f8b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 18/35] fix: model ignored when codeword bit 0 is the only
 structural bit

structural_elements holds indices, so any() is False for [0].
---
 decoders/classifiying_decoder.py     | 4 ++--
 decoders/combined_decoder.py         | 2 +-
 decoders/combined_unified_decoder.py | 2 +-
 decoders/entropy_bitwise_decoder.py  | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index f180614..8458b3a 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -173,7 +173,7 @@ class ClassifyingEntropyDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return llr
         if self.train_models:
             size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
@@ -227,7 +227,7 @@ class ClassifyingEntropyDecoder(Decoder):
                 if size>= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
                         self.models_entropy[0] < self.entropy_threshold]
-                    if structural_elements.any():
+                    if structural_elements.size > 0:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
 
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 4fc48b9..5687a48 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -80,7 +80,7 @@ class CombinedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 20f52c6..4229784 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -90,7 +90,7 @@ class CombinedUnifiedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index f7a95cc..235c9c3 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -461,7 +461,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         a_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.a_entropy < self.entropy_threshold]
         b_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.b_entropy < self.entropy_threshold]
 
-        if (not a_structural_elements.any()) and (not b_structural_elements.any()):  # no structural elements found
+        if a_structural_elements.size == 0 and b_structural_elements.size == 0:  # no structural elements found
             return llr
 
         if self.estimator == "Bayes":
-- 
2.43.0


From 866d5f1091679a3ee2d158c5dc3ff38c9443c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 19/35] fix: info bits were serialised one machine word per bit
 before segmentation

info_bits() returns an integer array; tobytes() on it gives 8 bytes per bit, so
no message was ever found and padding the validity mask failed with ValueError
whenever a buffer structure was known.
---
 decoders/combined_decoder.py         | 6 +++---
 decoders/combined_unified_decoder.py | 6 +++---
 decoders/mavlink_decoder.py          | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 5687a48..2df717e 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -184,14 +184,14 @@ class CombinedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -287,7 +287,7 @@ class CombinedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 4229784..31e929d 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -214,14 +214,14 @@ class CombinedUnifiedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -317,7 +317,7 @@ class CombinedUnifiedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 56aef63..3f120a6 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -140,7 +140,7 @@ class MavlinkRectifyingDecoder(Decoder):
         if self.learning:
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
-                    info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                    info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                     parts, validity, structure = self.bs.segment_buffer(info_bytes)
                     self.buffer_structures[label] = structure
                 self.model.add_buffer(estimate, self.buffer_structures[label])
@@ -212,14 +212,14 @@ class MavlinkRectifyingDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
-- 
2.43.0


From 82a59ade7c92acd3d7f10d284a2c5cadf2ec6a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 20/35] fix: rectification failed for fields the model has not
 seen yet

BufferModel.predict() leaves None for fields without a model, which the
decoders subscripted.
---
 decoders/combined_decoder.py         | 6 ++++--
 decoders/combined_unified_decoder.py | 6 ++++--
 decoders/mavlink_decoder.py          | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 2df717e..ca4d792 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -147,8 +147,10 @@ class CombinedDecoder(Decoder):
                                                                       self.buffer_structures[cluster_id])
         good_bits: NDArray[np.bool_] = valid_bits_p > 1 - self.valid_threshold
         bad_bits: NDArray[np.bool_] = valid_bits_p < self.invalid_thr
-        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] > 1 - self.valid_threshold]
-        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < self.invalid_thr]
+        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                      if vfp is not None and vfp[1] > 1 - self.valid_threshold]
+        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                     if vfp is not None and vfp[1] < self.invalid_thr]
 
         if self.mavlink_learning:  # if model is being learned, need to add a confidence factor to the rectification
             def model_confidence(model_size: int, center: float, slope: float) -> np.float_:
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 31e929d..a61289b 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -157,8 +157,10 @@ class CombinedUnifiedDecoder(Decoder):
                                                                       self.buffer_structures[cluster_id])
         good_bits: NDArray[np.bool_] = valid_bits_p > 1 - self.valid_threshold
         bad_bits: NDArray[np.bool_] = valid_bits_p < self.invalid_thr
-        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] > 1 - self.valid_threshold]
-        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < self.invalid_thr]
+        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                      if vfp is not None and vfp[1] > 1 - self.valid_threshold]
+        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                     if vfp is not None and vfp[1] < self.invalid_thr]
 
         if self.mavlink_learning:  # if model is being learned, need to add a confidence factor to the rectification
             def model_confidence(model_size: int, center: float, slope: float) -> np.float_:
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 3f120a6..1689168 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -175,8 +175,10 @@ class MavlinkRectifyingDecoder(Decoder):
                                                                       self.buffer_structures[cluster_id])
         good_bits: NDArray[np.bool_] = valid_bits_p > 1 - self.valid_threshold
         bad_bits: NDArray[np.bool_] = valid_bits_p < self.invalid_thr
-        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] > 1 - self.valid_threshold]
-        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < self.invalid_thr]
+        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                      if vfp is not None and vfp[1] > 1 - self.valid_threshold]
+        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                     if vfp is not None and vfp[1] < self.invalid_thr]
 
         if self.learning:  # if model is being learned, need to add a confidence factor to the rectification
             def model_confidence(model_size: int, center: float, slope: float) -> np.float_:
-- 
2.43.0


From 8beb87c7075b26f36c35e3cb321b5f51a9c52d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 21/35] fix: classifier training buffers were learnt as the
 last cluster

During training the label is -1, which indexed the structure of the last cluster.
---
 decoders/mavlink_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 1689168..b7ccb1c 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -137,7 +137,7 @@ class MavlinkRectifyingDecoder(Decoder):
     def decode_and_update_model(self, llr, label, channel_bits) -> tuple[
         NDArray[np.int_], NDArray[np.float_], bool, int, NDArray[np.int_], NDArray[np.int_], int]:
         estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(llr)
-        if self.learning:
+        if self.learning and label >= 0:
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
                     info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
-- 
2.43.0


From 7e022f1ac162ee23e0e93e6bcbd825439e73b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 22/35] fix: combined decoder fed whole codewords to a model of
 model_length bits

update_entropy_model() raised IncorrectBufferLength unless model_length equals
the code length.
---
 decoders/combined_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index ca4d792..7dbcab6 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -296,7 +296,7 @@ class CombinedDecoder(Decoder):
                 elif self.buffer_structures[label] is not None:  # update model from channel if data is bad
                     self.model.add_buffer(channel_bits, self.buffer_structures[label])
             if decode_success:  # buffer fully recovered
-                self.update_entropy_model(estimate, label)
+                self.update_entropy_model(estimate[self.model_bits_idx], label)
             else:  # update model from channel if data is bad
-                self.update_entropy_model(channel_bits, label)
+                self.update_entropy_model(channel_bits[self.model_bits_idx], label)
         return estimate, llr, decode_success, iterations, label
-- 
2.43.0


From 70399c33b8bb63116d6537b745791b7f24fad009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 23/35] fix: get_msg_fields returned a bare dict for a buffer
 with no messages

---
 inference/buffer_segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index e7642ca..4aef1d1 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -197,7 +197,7 @@ class BufferSegmentation:
         """
         msg_parts, bit_validity, buffer_structure = self.segment_buffer(buffer)
         if buffer_structure == {}:
-            return {}
+            return {}, []
         fields = {}
         buffer_description = []
         for k, v in buffer_structure.items():
-- 
2.43.0


From 4371bed2d4a36d627b43f17969a01fd6eb739c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 24/35] fix: num2bits failed for every char value

The 'c' format packs a bytes object, not an integer.
---
 inference/statistical_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index d9fad8c..cfe2d3e 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -14,7 +14,7 @@ import struct
 def num2bits(num, field_type: str) -> NDArray[np.uint8]:
     # cast first
     if field_type == "char":
-        num = ord(num)
+        num = bytes([ord(num)])
     elif "uint" in field_type:
         num = int(round(num)) if num >= 0 else 0
     elif "int" in field_type:
-- 
2.43.0


From f58d91f3f26364128a6b716f6344f746f5158e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 25/35] fix: num2bits overflowed on the mean of maximal 64 bit
 fields

The float mean of 2**64 - 1 (or 2**63 - 1) rounds up out of range.
---
 inference/statistical_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index cfe2d3e..ce79932 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -16,9 +16,9 @@ def num2bits(num, field_type: str) -> NDArray[np.uint8]:
     if field_type == "char":
         num = bytes([ord(num)])
     elif "uint" in field_type:
-        num = int(round(num)) if num >= 0 else 0
+        num = min(int(round(num)), 2 ** (8 * field_lengths[field_type]) - 1) if num >= 0 else 0
     elif "int" in field_type:
-        num = int(round(num))
+        num = min(int(round(num)), 2 ** (8 * field_lengths[field_type] - 1) - 1)
     elif field_type != "float":
         raise ValueError(f"field_type {field_type} is not supported")
     fmt = format_strings[field_type]
-- 
2.43.0


From 4f1a443ac0b492f93e8579ae84bc6abd7cb9add9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:48 +0000
Subject: [PATCH 26/35] fix: bitwise_model_mean failed for structures with
 fields not modelled yet

Header field models are shared between message types, so a bit may be forced
while other fields of the same buffer have no model; they raised KeyError.
---
 inference/statistical_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index ce79932..1cefe2e 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -373,7 +373,8 @@ class BufferModel:
         mean_values = np.zeros(buffer_len*8, dtype=np.uint8)
         for field_idx, field_name, field_type in zip(range(len(ordered_field_names)),
                                                      ordered_field_names, ordered_field_types):
-            mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
+            if field_name in self._field_models.keys():
+                mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
         return mean_values[bits_idx]
 
 
-- 
2.43.0


From 62652667981e6230b47934fa635dad702c619124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:04 +0000
Subject: [PATCH 27/35] fix: message-field view named fields after a field
 called 'name'

---
 inference/buffer_segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index 4aef1d1..bae3c9c 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -206,9 +206,9 @@ class BufferSegmentation:
             buffer_description.append(parsed_msg.get_header().pack())
             for idx, field in enumerate(parsed_msg.ordered_fieldnames):
                 type_idx = parsed_msg.orders.index(idx)
-                fields[f'{parsed_msg.name}_{field}'] = parsed_msg.format_attr(field), parsed_msg.fieldtypes[type_idx]
+                fields[f'{parsed_msg.get_type()}_{field}'] = parsed_msg.format_attr(field), parsed_msg.fieldtypes[type_idx]
                 # format_attr returns is mavlink's field getter function
-                buffer_description.append((f'{parsed_msg.name}_{field}', parsed_msg.fieldtypes[type_idx]))
+                buffer_description.append((f'{parsed_msg.get_type()}_{field}', parsed_msg.fieldtypes[type_idx]))
             buffer_description.append("crc")
 
         return fields, buffer_description
-- 
2.43.0


From 4539c08c639b14c50c5404c6018094ff919d83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:12 +0000
Subject: [PATCH 28/35] fix: num2bits raised KeyError for unsupported types
 named like integers

---
 inference/statistical_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index 1cefe2e..517c6ea 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -12,6 +12,8 @@ import struct
 
 
 def num2bits(num, field_type: str) -> NDArray[np.uint8]:
+    if field_type not in field_lengths.keys():
+        raise ValueError(f"field_type {field_type} is not supported")
     # cast first
     if field_type == "char":
         num = bytes([ord(num)])
-- 
2.43.0


From d74984f1616476d07d02405b988319fe66e8be2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:26 +0000
Subject: [PATCH 29/35] fix: online denoiser with context length 0 used a
 context of one sample

---
 inference/dude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/dude.py b/inference/dude.py
index 34e77f6..71fafb6 100644
--- a/inference/dude.py
+++ b/inference/dude.py
@@ -46,7 +46,7 @@ class OnlineDude:
         self.contexts[self._last_context][observation] += 1
         empirical_p = self.contexts[self._last_context][np.newaxis]
         # update the context
-        self._last_context = self._last_context[1:] + (observation,)
+        self._last_context = (self._last_context + (observation,))[1:]
         # estimate the state
         if self.hard_decision:
             posterior_p = np.matmul(empirical_p, self.inverse_channel_transition_matrix) * self.channel_transition_matrix[
-- 
2.43.0


From a8a3961c47c442cd4faa39d71be08b0dd8f306d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 30/35] fix: confidence scheme 4 failed while one of the models
 has no data

---
 decoders/entropy_bitwise_decoder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 235c9c3..0de3335 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -275,13 +275,14 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         self.estimator = estimator
         self.bit_flip = bit_flip
         self.corrected_dist = corrected_dist
+        # nothing learnt yet, the variance is that of a uniform distribution
+        self.a_normalized_variance = 1.0
+        self.b_normalized_variance = 1.0
         if estimator == "Bayes":
             self.a_ones_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.a_zeros_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.b_ones_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.b_zeros_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
-            self.a_normalized_variance = 0.0
-            self.b_normalized_variance = 0.0
             self.min_size = window_length
             self.max_size = 2 * window_length
         else:  # use MLE
-- 
2.43.0


From 2fe8af98dcf1e7ac85be3114b5c400a811b38130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 31/35] fix: bit forcing used the model of cluster 0 for every
 cluster

---
 decoders/classifiying_decoder.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 8458b3a..80ceec3 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -113,12 +113,12 @@ class ClassifyingEntropyDecoder(Decoder):
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
             # Use WBF only with AWGN since it assumes a specific relationship between priors and LLR
             # The more positive the reliability is, the less reliable the value is
-            samples, priors = self._sample_and_priors(channel_llr, model_llr)
+            samples, priors = self._sample_and_priors(channel_llr, model_llr, label)
             estimate, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(samples,
                                                                                                       priors)
             llr = np.array([])
         elif isinstance(self.ldpc_decoder, GalBfDecoder):
-            samples, _ = self._sample_and_priors(channel_llr, model_llr)
+            samples, _ = self._sample_and_priors(channel_llr, model_llr, label)
             if samples.dtype != np.int_:  # convert to hard bits
                 hard_channel_bits = np.array(samples < 0, dtype=np.int_)
             else:
@@ -191,7 +191,8 @@ class ClassifyingEntropyDecoder(Decoder):
 
         return llr
 
-    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_]):
+    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_],
+                           cluster_id: int = 0):
         """The method returns a modified channel sample and priors depending on the method used and inputs"""
         max_sample = max(np.abs(channel_sample))
         samples = channel_sample
@@ -223,10 +224,10 @@ class ClassifyingEntropyDecoder(Decoder):
             if self.reliability_method == 3:  # Used for forcing th bits in the GalBfDecoder
                 model_bits = np.array(model_llr < 0, dtype=np.int_)
                 samples = np.array(channel_sample < 0, dtype=np.int_)
-                size = self.models_data[0].shape[1] if self.models_data[0].size > 0 else 0
+                size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
                 if size>= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
-                        self.models_entropy[0] < self.entropy_threshold]
+                        self.models_entropy[cluster_id] < self.entropy_threshold]
                     if structural_elements.size > 0:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
-- 
2.43.0


From 406ab1fd1881076f94b6df1f82df033afd1a15ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:19 +0000
Subject: [PATCH 32/35] fix: unified decoder model shared memory with the
 estimate it returned

---
 decoders/combined_unified_decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index a61289b..98b8612 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -326,7 +326,8 @@ class CombinedUnifiedDecoder(Decoder):
                 elif self.buffer_structures[label] is not None:  # update model from channel if data is bad
                     self.model.add_buffer(channel_bits, self.buffer_structures[label])
             if decode_success:  # buffer fully recovered
-                self.update_entropy_model(estimate[:self.model_length], label)
+                # the estimate is returned to the caller, don't let the model share its memory
+                self.update_entropy_model(estimate[:self.model_length].copy(), label)
             else:  # update model from channel if data is bad
                 self.update_entropy_model(channel_bits[:self.model_length], label)
         return estimate, llr, decode_success, iterations, label
-- 
2.43.0


From 4d5e5e9977245e62484209a446241302b477aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:47 +0000
Subject: [PATCH 33/35] fix: classify and learn a buffer once however many
 segmentation iterations it takes

---
 decoders/mavlink_decoder.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index b7ccb1c..4af571f 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -97,18 +97,19 @@ class MavlinkRectifyingDecoder(Decoder):
         channel_bits: NDArray[np.int_] = np.array(channel_llr < 0, dtype=np.int_)
         decoder_input = channel_llr.copy()
         all_iteration = 0
-        for _ in range(self.segmentation_iterations):
-            if self.n_clusters > 1:
-                if self.cluster:
-                    label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
-                    if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
-                        return self.decode_and_update_model(channel_llr, label, channel_bits) + (np.array([]), [], [], {}, {})
-                else:
-                    self.running_idx = (self.running_idx + 1) % self.n_clusters
-                    label = self.running_idx
-            else:  # no clustering, single buffer type
-                label = 0
+        # a buffer is classified (and learnt) once, regardless of the number of segmentation iterations it takes
+        if self.n_clusters > 1:
+            if self.cluster:
+                label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
+                if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
+                    return self.decode_and_update_model(channel_llr, label, channel_bits) + (np.array([]), [], [], {}, {})
+            else:
+                self.running_idx = (self.running_idx + 1) % self.n_clusters
+                label = self.running_idx
+        else:  # no clustering, single buffer type
+            label = 0
 
+        for _ in range(self.segmentation_iterations):
             segmented_bits: NDArray[np.bool_]
             good_fields_idx: list[int]
             bad_fields_idx: list[int]
@@ -118,11 +119,12 @@ class MavlinkRectifyingDecoder(Decoder):
             bad_bits: NDArray[np.int_]
             decoder_input, good_bits, bad_bits, good_fields_idx, bad_fields_idx, n_fields, forced_bits, \
                 segmented_bits = self.model_prediction(decoder_input, label)
-            estimate, decoder_input, decode_success, iterations, syndrome, vnode_validity, \
-                label = self.decode_and_update_model(decoder_input, label, channel_bits)
+            estimate, decoder_input, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(
+                decoder_input)
             all_iteration += iterations
             if decode_success:
                 break
+        self.update_model(estimate, decode_success, label, channel_bits)
         if self.debug:
             classifier_performance = self.classifier_analysis(good_fields_idx, bad_fields_idx, error_idx, n_fields,
                                                               label)
@@ -137,6 +139,10 @@ class MavlinkRectifyingDecoder(Decoder):
     def decode_and_update_model(self, llr, label, channel_bits) -> tuple[
         NDArray[np.int_], NDArray[np.float_], bool, int, NDArray[np.int_], NDArray[np.int_], int]:
         estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(llr)
+        self.update_model(estimate, decode_success, label, channel_bits)
+        return estimate, llr, decode_success, iterations, syndrome, vnode_validity, label
+
+    def update_model(self, estimate: NDArray[np.int_], decode_success: bool, label: int, channel_bits: NDArray[np.int_]) -> None:
         if self.learning and label >= 0:
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
@@ -146,7 +152,6 @@ class MavlinkRectifyingDecoder(Decoder):
                 self.model.add_buffer(estimate, self.buffer_structures[label])
             elif self.buffer_structures[label] is not None:  # update model from channel if data is bad
                 self.model.add_buffer(channel_bits, self.buffer_structures[label])
-        return estimate, llr, decode_success, iterations, syndrome, vnode_validity, label
 
     def set_buffer_structures(self, buffer_structures: Sequence[dict[int, int]]) -> None:
         """sets the buffer structures to use for decoding
-- 
2.43.0


From 44d5605ff55800b51675a1ef8e8e6ebd828de3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:16 +0000
Subject: [PATCH 34/35] fix: debug mode no longer fails while the buffer
 structure is unknown

The forcing analysis needs a structure, and the MAVLink decoder analyzed a buffer after learning it.
---
 decoders/combined_decoder.py         | 2 ++
 decoders/combined_unified_decoder.py | 2 ++
 decoders/mavlink_decoder.py          | 6 ++++--
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 7dbcab6..00ef486 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -223,6 +223,8 @@ class CombinedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:  # nothing is forced without a structure
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 98b8612..02afc76 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -253,6 +253,8 @@ class CombinedUnifiedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:  # nothing is forced without a structure
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 4af571f..c7845bc 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -124,14 +124,14 @@ class MavlinkRectifyingDecoder(Decoder):
             all_iteration += iterations
             if decode_success:
                 break
-        self.update_model(estimate, decode_success, label, channel_bits)
-        if self.debug:
+        if self.debug:  # analyze the model used for rectification, before it learns the buffer
             classifier_performance = self.classifier_analysis(good_fields_idx, bad_fields_idx, error_idx, n_fields,
                                                               label)
             forcing_performance = self.forcing_analysis(forced_bits, error_idx, channel_bits, label)
         else:
             classifier_performance = {}
             forcing_performance = {}
+        self.update_model(estimate, decode_success, label, channel_bits)
 
         return estimate, decoder_input, decode_success, all_iteration, syndrome, vnode_validity, label, \
             segmented_bits, good_fields_idx, bad_fields_idx, classifier_performance, forcing_performance
@@ -256,6 +256,8 @@ class MavlinkRectifyingDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:  # nothing is forced without a structure
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
-- 
2.43.0


From 74cfd6bdf0d1401fd8bda728ae3b87ca39ca2e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:31 +0000
Subject: [PATCH 35/35] fix: a field with several errors is one damaged field
 in the classifier analysis

---
 decoders/combined_decoder.py         | 4 ++--
 decoders/combined_unified_decoder.py | 4 ++--
 decoders/mavlink_decoder.py          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 00ef486..4bb654c 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -211,9 +211,9 @@ class CombinedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 02afc76..7898a06 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -241,9 +241,9 @@ class CombinedUnifiedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index c7845bc..876d6dc 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -244,9 +244,9 @@ class MavlinkRectifyingDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
-- 
2.43.0

