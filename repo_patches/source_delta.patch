From f610c0a650f02dacc28499643ffc970a437fb8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:51 +0000
Subject: [PATCH 01/44] fix: keep the summary's larger samples when the head
 buffer is merged in

---
 ml/feature/quantile_summaries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 39d4763..abe2244 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -97,6 +97,7 @@ class QuantileSummaries(object):
             new_stats = Stats(current_sample, 1, delta)
             new_sampled.append(new_stats)
             ops_idx += 1
+        new_sampled += self.sampled[sample_idx:]
         self.sampled = new_sampled
         self.head_sampled = []
         self.count = current_count
-- 
2.43.0


From 4ae9d4ea0019d9b8c6f6a11670e4c860b0c047d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:52 +0000
Subject: [PATCH 02/44] fix: quantile query must count and consider the first
 sample

---
 ml/feature/quantile_summaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index abe2244..d0f8068 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -184,7 +184,7 @@ class QuantileSummaries(object):
         rank = math.ceil(quantile * self.count)
         target_error = math.ceil(self.error * self.count)
         min_rank = 0
-        i = 1
+        i = 0
         while i < len(self.sampled) - 1:
             cur_sample = self.sampled[i]
             min_rank += cur_sample.g
-- 
2.43.0


From 310f8493a3b6d20395ad1562c402b152a5fa227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:53 +0000
Subject: [PATCH 03/44] fix: sparse quantile query uses the count of all
 inserted numbers and checks its range

---
 ml/feature/quantile_summaries.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index d0f8068..5902b7f 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -248,6 +248,12 @@ class SparseQuantileSummaries(QuantileSummaries):
         super(SparseQuantileSummaries, self).insert(x)
 
     def query(self, quantile):
+        if quantile < 0 or quantile > 1:
+            raise ValueError("Quantile should be in range [0.0, 1.0]")
+
+        if self.head_sampled:
+            self.compress()
+
         if self.zero_lower_bound <= quantile <= self.zero_upper_bound:
             return 0.0
 
-- 
2.43.0


From 1bcbe694949470eb44bb2e02ae3f88379ec93fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:53 +0000
Subject: [PATCH 04/44] fix: sparse summaries ignore abnormal values in their
 sign counts

---
 ml/feature/quantile_summaries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 5902b7f..2f03a33 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -241,6 +241,9 @@ class SparseQuantileSummaries(QuantileSummaries):
         self._total_count = total_count
 
     def insert(self, x):
+        if x in self.abnormal_list:
+            return
+
         if x < consts.FLOAT_ZERO:
             self.smaller_num += 1
         elif x >= consts.FLOAT_ZERO:
-- 
2.43.0


From a50ddd4544ea1daddd6227a621057cf71b1f211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:23 +0000
Subject: [PATCH 05/44] fix: merging a quantile summary must not change the
 summary merged in

---
 ml/feature/quantile_summaries.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 2f03a33..ca7ca21 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -130,7 +130,7 @@ class QuantileSummaries(object):
 
         if self.count == 0:
             self.count = other.count
-            self.sampled = other.sampled
+            self.sampled = [Stats(s.value, s.g, s.delta) for s in other.sampled]
             return
 
         # merge two sorted array
@@ -141,10 +141,10 @@ class QuantileSummaries(object):
                 new_sample.append(self.sampled[i])
                 i += 1
             else:
-                new_sample.append(other.sampled[j])
+                new_sample.append(Stats(other.sampled[j].value, other.sampled[j].g, other.sampled[j].delta))
                 j += 1
         new_sample += self.sampled[i:]
-        new_sample += other.sampled[j:]
+        new_sample += [Stats(s.value, s.g, s.delta) for s in other.sampled[j:]]
 
         self.sampled = new_sample
         self.count += other.count
-- 
2.43.0


From 683dc4adb6c9c2a032e27f5896cf98e497d7d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:05 +0000
Subject: [PATCH 06/44] fix: sparse quantile query must not answer from the
 wrong side of the zeros

---
 ml/feature/quantile_summaries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index ca7ca21..ec8e8f1 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -262,6 +262,9 @@ class SparseQuantileSummaries(QuantileSummaries):
 
         non_zero_quantile = self._convert_query_percentile(quantile)
         result = super(SparseQuantileSummaries, self).query(non_zero_quantile)
+        if self._total_count > self.count:
+            # the approximation must not step over the block of zeros
+            result = min(result, 0.0) if quantile < self.zero_lower_bound else max(result, 0.0)
         return result
 
     def merge(self, other):
-- 
2.43.0


From 734e0a9352ba0dcd4fad3fd7dbe4e124986c019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:36 +0000
Subject: [PATCH 07/44] fix: binning selected columns of sparse data skips the
 other columns

---
 ml/feature/binning/quantile_binning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 3c50679..8d1feea 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -145,6 +145,8 @@ class QuantileBinning(Binning):
                 data_generator = instance.features.get_all_data()
                 for col_idx, col_value in data_generator:
                     col_name = header[col_idx]
+                    if col_name not in summary_dict:
+                        continue
                     summary = summary_dict[col_name]
                     summary.insert(col_value)
 
-- 
2.43.0


From 726829a060995e7904f2bb81683656801297ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:36 +0000
Subject: [PATCH 08/44] fix: split points are in increasing order

---
 ml/feature/binning/quantile_binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 8d1feea..cd36429 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -65,7 +65,7 @@ class QuantileBinning(Binning):
                 s_p = summary.query(percentile_rate)
                 if s_p not in split_point:
                     split_point.append(s_p)
-            split_points[col_name] = split_point
+            split_points[col_name] = sorted(split_point)
         self.split_points = split_points
 
     @staticmethod
-- 
2.43.0


From 1747d003d8232dbcc582d4a727e897c56b11fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:37 +0000
Subject: [PATCH 09/44] fix: fit_split_points returns the split points as
 documented

---
 ml/feature/binning/quantile_binning.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index cd36429..557677e 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -67,6 +67,7 @@ class QuantileBinning(Binning):
                     split_point.append(s_p)
             split_points[col_name] = sorted(split_point)
         self.split_points = split_points
+        return split_points
 
     @staticmethod
     def approxiQuantile(data_instances, params, cols_dict, abnormal_list, header, is_sparse) -> dict:
-- 
2.43.0


From 4873abfb512adecefaca89c7d8187b48d82379b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:38 +0000
Subject: [PATCH 10/44] fix: converting features to bins must not overwrite the
 caller's records

---
 ml/feature/binning/base_binning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ml/feature/binning/base_binning.py b/ml/feature/binning/base_binning.py
index c433b9d..4c358e4 100644
--- a/ml/feature/binning/base_binning.py
+++ b/ml/feature/binning/base_binning.py
@@ -1,3 +1,4 @@
+import copy
 import functools
 import math
 
@@ -133,12 +134,13 @@ class Binning:
                 sparse_value.append(col_value)
 
         sparse_vector = SparseVector(indice, sparse_value, data_shape)
+        instances = copy.copy(instances)
         instances.features = sparse_vector
         return instances
 
     @staticmethod
     def _convert_dense_data(instances, transform_cols_idx, split_points_dict, header):
-        features = instances.features
+        features = instances.features.copy()
         for col_idx, col_value in enumerate(features):
             if col_idx in transform_cols_idx:
                 col_name = header[col_idx]
@@ -146,6 +148,7 @@ class Binning:
                 bin_num = Binning.get_bin_num(col_value, split_points)
                 features[col_idx] = bin_num
 
+        instances = copy.copy(instances)
         instances.features = features
         return instances
 
-- 
2.43.0


From 88362fa803e1f51280fd35c7948ab98b44cb8e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:39 +0000
Subject: [PATCH 11/44] fix: aligning data to sparse records must not replace
 the features of the caller's records

---
 ml/tree/boosting_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ml/tree/boosting_tree.py b/ml/tree/boosting_tree.py
index 7e00998..3f99b3e 100644
--- a/ml/tree/boosting_tree.py
+++ b/ml/tree/boosting_tree.py
@@ -1,4 +1,6 @@
 
+import copy
+
 from computing.d_table import DTable
 import numpy as np
 from ml.param.boosting_tree_param import BoostingTreeParam
@@ -62,6 +64,7 @@ class BoostingTree(ModelBase):
                 indices.append(i)
                 data.append(row.features[i])
 
+            row = copy.copy(row)
             row.features = SparseVector(indices, data, feature_shape)
 
         return row
-- 
2.43.0


From 17f122a32338a430ee50343d414770cc88034dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:21 +0000
Subject: [PATCH 12/44] fix: quantile query tolerance is the summary's own rank
 uncertainty

---
 ml/feature/quantile_summaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index ec8e8f1..bb65fd7 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -182,7 +182,7 @@ class QuantileSummaries(object):
             return self.sampled[-1].value
 
         rank = math.ceil(quantile * self.count)
-        target_error = math.ceil(self.error * self.count)
+        target_error = max(sample.g + sample.delta for sample in self.sampled) // 2
         min_rank = 0
         i = 0
         while i < len(self.sampled) - 1:
-- 
2.43.0


From a5ea3c2339236ab1a33559e992fa1d3092b2a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:22 +0000
Subject: [PATCH 13/44] fix: partition statistics are returned as a list, as
 mapPartitions expects

---
 ml/statistic/statics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 35ed40e..8f0cdce 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -200,7 +200,7 @@ class MultivariateStatisticalSummary(object):
                 stat_obj = summary_statistic_dict[col_name]
                 stat_obj.add_value(value)
 
-        return summary_statistic_dict
+        return [summary_statistic_dict]
 
     @staticmethod
     def static_summaries_in_partition(data_instances, cols_dict, abnormal_list):
@@ -238,7 +238,7 @@ class MultivariateStatisticalSummary(object):
                 summary_obj = summary_dict[col_name]
                 summary_obj.insert(value)
 
-        return summary_dict
+        return [summary_dict]
 
     @staticmethod
     def aggregate_statics(s_dict1, s_dict2):
-- 
2.43.0


From e2e4a590f0024a25fee380cdabc68c51bffac805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:22 +0000
Subject: [PATCH 14/44] fix: log cosh loss starts from the mean label, not from
 a dict

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 450c8db..fc9fe10 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -179,7 +179,7 @@ class LogCoshLoss(object):
         y_inst = y.mapValues(lambda label: Instance(features=np.asarray([label])))
         y_inst.schema = {"header": ["label"]}
         statistics = MultivariateStatisticalSummary(y_inst, -1)
-        mean = statistics.get_mean()
+        mean = statistics.get_mean()["label"]
         return y.mapValues(lambda x: np.asarray([mean])), np.asarray([mean])
 
     @staticmethod
-- 
2.43.0


From 45940e38eff72fc820e2bce19da7abc2dac27d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:23 +0000
Subject: [PATCH 15/44] fix: fair loss without a parameter uses its default

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index fc9fe10..3ef6fc7 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -146,7 +146,7 @@ class FairLoss(object):
 
     def __init__(self, c):
         if c is None:
-            self.c = const.FLOAT_ZERO
+            self.c = consts.FLOAT_ZERO
         else:
             self.c = c
 
-- 
2.43.0


From f77a04138f4572174a38bf77ca8da0f90220aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:24 +0000
Subject: [PATCH 16/44] fix: the gradient of the absolute error is zero where
 prediction and label agree

---
 ml/loss/regression_loss.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 3ef6fc7..d2455b4 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -75,16 +75,12 @@ class LeastAbsoluteErrorLoss(object):
     def compute_grad(y, y_pred):
         if type(y).__name__ == "ndarray" or type(y_pred).__name__ == "ndarray":
             diff = y_pred - y
-            diff[diff > consts.FLOAT_ZERO] = 1
-            diff[diff < consts.FLOAT_ZERO] = -1
-            diff[np.abs(diff) <= consts.FLOAT_ZERO] = 0
-
-            return diff
+            return np.sign(np.where(np.abs(diff) <= consts.FLOAT_ZERO, 0, diff))
         else:
             diff = y_pred - y
             if diff > consts.FLOAT_ZERO:
                 return 1
-            elif diff < consts.FLOAT_ZERO:
+            elif diff < -consts.FLOAT_ZERO:
                 return -1
             else:
                 return 0
-- 
2.43.0


From 484db3d329b85dc980d91d1fd4d26b520e0ba728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:24 +0000
Subject: [PATCH 17/44] fix: log cosh loss does not overflow for large
 residuals

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index d2455b4..b68988b 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -184,7 +184,7 @@ class LogCoshLoss(object):
 
     @staticmethod
     def compute_loss(y, y_pred):
-        log_cosh_loss = y.join(y_pred, lambda y, yp: (np.log(np.cosh(yp - y)), 1))
+        log_cosh_loss = y.join(y_pred, lambda y, yp: (np.logaddexp(yp - y, y - yp) - np.log(2), 1))
         log_cosh_sum, sample_num = log_cosh_loss.reduce(
             lambda tuple1, tuple2: (tuple1[0] + tuple2[0], tuple1[1] + tuple2[1]))
         return log_cosh_sum / sample_num
-- 
2.43.0


From 654928c00994ca52bb400ca866aaa2ad9693e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:06 +0000
Subject: [PATCH 18/44] fix: hosts receive the shape of a tree, not its
 weights, gradient and hessian sums

---
 ml/tree/hetero_decision_tree_guest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ml/tree/hetero_decision_tree_guest.py b/ml/tree/hetero_decision_tree_guest.py
index ac1e371..f6c5043 100644
--- a/ml/tree/hetero_decision_tree_guest.py
+++ b/ml/tree/hetero_decision_tree_guest.py
@@ -306,7 +306,10 @@ class HeteroDecisionTreeGuest(DecisionTree):
     def sync_tree(self):
         self.logger.info("sync tree to host")
 
-        self.transfer_inst.send_data_to_hosts(self.tree_, -1)
+        # hosts need the shape of the tree only: no weights, gradients or hessians
+        mask_tree = [Node(id=node.id, sitename=node.sitename, fid=node.fid, bid=node.bid, is_leaf=node.is_leaf,
+                          left_nodeid=node.left_nodeid, right_nodeid=node.right_nodeid) for node in self.tree_]
+        self.transfer_inst.send_data_to_hosts(mask_tree, -1)
 
         # federation.remote(obj=self.tree_,
         #                   name=self.transfer_inst.tree.name,
-- 
2.43.0


From 68e9bf867721462dda1c0d6b54b25bcea15b1262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:30 +0000
Subject: [PATCH 19/44] fix: fixed-point arithmetic keeps the modulus the
 numbers were encoded for

---
 ml/secureprotol/fixedpoint.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index f411d72..f481ec0 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -127,7 +127,7 @@ class FixedPointNumber(object):
 
     def __truncate(self, a):
         scalar = a.decode()
-        return FixedPointNumber.encode(scalar)    
+        return FixedPointNumber.encode(scalar, a.n, a.max_int)    
 
     def __add__(self, other):       
         if isinstance(other, FixedPointNumber):
@@ -148,7 +148,7 @@ class FixedPointNumber(object):
     def __rsub__(self, other):
         x = self.__sub__(other)
         x = -1 * x.decode()
-        return self.encode(x)
+        return self.encode(x, self.n, self.max_int)
     
     def __rmul__(self, other):
         return self.__mul__(other)
@@ -169,7 +169,7 @@ class FixedPointNumber(object):
    
     def __rtruediv__(self, other):
         res = 1.0 / self.__truediv__(other).decode() 
-        return FixedPointNumber.encode(res)
+        return FixedPointNumber.encode(res, self.n, self.max_int)
  
     def __lt__(self, other):
         x = self.decode()
@@ -238,13 +238,20 @@ class FixedPointNumber(object):
         else:
             return False   
   
+    def __same_modulus(self, other):
+        """return other, encoded against the modulus of self
+        """
+        if self.n != other.n:
+            other = self.encode(other.decode(), self.n, self.max_int)
+        return other
+
     def __add_fixpointnumber(self, other):        
-        x, y = self.__align_exponent(self, other)
-        encoding = (x.encoding + y.encoding) % self.Q        
-        return FixedPointNumber(encoding, x.exponent)
+        x, y = self.__align_exponent(self, self.__same_modulus(other))
+        encoding = (x.encoding + y.encoding) % self.n
+        return FixedPointNumber(encoding, x.exponent, self.n, self.max_int)
  
     def __add_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__add_fixpointnumber(encoded)
   
     def __sub_fixpointnumber(self, other):        
@@ -256,12 +263,13 @@ class FixedPointNumber(object):
         return self.__add_scalar(scalar)    
   
     def __mul_fixpointnumber(self, other):     
-        encoding = (self.encoding * other.encoding) % self.Q
+        other = self.__same_modulus(other)
+        encoding = (self.encoding * other.encoding) % self.n
         exponet = self.exponent + other.exponent
-        mul_fixedpoint = FixedPointNumber(encoding, exponet)            
+        mul_fixedpoint = FixedPointNumber(encoding, exponet, self.n, self.max_int)
         truncate_mul_fixedpoint= self.__truncate(mul_fixedpoint)        
         return truncate_mul_fixedpoint
    
     def __mul_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__mul_fixpointnumber(encoded)
-- 
2.43.0


From 688862aa60634df93a9506294cdd89c1bf67f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:30 +0000
Subject: [PATCH 20/44] fix: encode numpy scalars without overflow or rounding
 in their own type

---
 ml/secureprotol/fixedpoint.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index f481ec0..39f2c76 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -53,6 +53,12 @@ class FixedPointNumber(object):
         #  Too low value preprocess;
         #  avoid "OverflowError: int too large to convert to float"
         
+        #  scaling a numpy scalar would overflow or round in its own type
+        if isinstance(scalar, (np.int16, np.int32, np.int64)):
+            scalar = int(scalar)
+        elif isinstance(scalar, (np.float16, np.float32, np.float64)):
+            scalar = float(scalar)
+
         if np.abs(scalar) < 1e-200:
             scalar = 0
         
-- 
2.43.0


From 0ddc38e3496628d842f33b17a30bf862134846c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:31 +0000
Subject: [PATCH 21/44] fix: dividing zero by a fixed-point number gives zero

---
 ml/secureprotol/fixedpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index 39f2c76..077891b 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -174,7 +174,7 @@ class FixedPointNumber(object):
         return self.__mul__(1 / scalar) 
    
     def __rtruediv__(self, other):
-        res = 1.0 / self.__truediv__(other).decode() 
+        res = other / self.decode()
         return FixedPointNumber.encode(res, self.n, self.max_int)
  
     def __lt__(self, other):
-- 
2.43.0


From 9d7d6b0f30b1762e174a355e480460e65d60c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:32 +0000
Subject: [PATCH 22/44] fix: key generation terminates for odd key lengths

---
 ml/secureprotol/fate_paillier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/fate_paillier.py b/ml/secureprotol/fate_paillier.py
index 91e2d33..a574329 100644
--- a/ml/secureprotol/fate_paillier.py
+++ b/ml/secureprotol/fate_paillier.py
@@ -36,7 +36,7 @@ class PaillierKeypair(object):
             p = gmpy_math.getprimeover(n_length // 2)
             q = p
             while q == p:
-                q = gmpy_math.getprimeover(n_length // 2)
+                q = gmpy_math.getprimeover(n_length - n_length // 2)
             n = p * q
             n_len = n.bit_length()
         
-- 
2.43.0


From 38b4e2afec9af6a41bc463aac75e56b5b892e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:43 +0000
Subject: [PATCH 23/44] fix: encrypting an array or table keeps the ciphertexts
 instead of casting them to floats

---
 ml/secureprotol/encrypt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/secureprotol/encrypt.py b/ml/secureprotol/encrypt.py
index 7a17a73..564ca1a 100644
--- a/ml/secureprotol/encrypt.py
+++ b/ml/secureprotol/encrypt.py
@@ -97,7 +97,7 @@ class Encrypt(object):
         if not isinstance(A, np.ndarray) and not isinstance(A, list):
             data_dict = A.collect()
             data_dict = dict(data_dict)
-            A = data_dict.values()
+            A = list(data_dict.values())
             A = np.array(A)
 
         if isinstance(A, list):
@@ -112,7 +112,7 @@ class Encrypt(object):
             else:
                 encrypted_term = self.encrypt_list(row)
                 encrypt_row.append(encrypted_term)
-        return np.array(encrypt_row, dtype=np.float64)
+        return np.array(encrypt_row)
 
 
 class RsaEncrypt(Encrypt):
-- 
2.43.0


From ac2c960223b6e8cdcc38f81b3ebe3e2ca30d78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:44 +0000
Subject: [PATCH 24/44] fix: affine key generation terminates for small ratios

---
 ml/secureprotol/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/affine.py b/ml/secureprotol/affine.py
index 5e82edf..5a30271 100644
--- a/ml/secureprotol/affine.py
+++ b/ml/secureprotol/affine.py
@@ -33,7 +33,7 @@ class AffineCipher(object):
         if b_ratio is None:
             b_ratio = random.SystemRandom().random()
         while True:
-            a = random.SystemRandom().getrandbits(int(key_size * a_ratio))
+            a = random.SystemRandom().getrandbits(max(1, int(key_size * a_ratio)))
             if math.gcd(n, a) == 1:
                 break
         b = random.SystemRandom().getrandbits(int(key_size * b_ratio))
-- 
2.43.0


From 085f3bfe92c0ce5d3786a58b32aa9dac38eb5601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:17 +0000
Subject: [PATCH 25/44] fix: reduce does not drop what it accumulated when that
 is None

---
 computing/d_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/computing/d_table.py b/computing/d_table.py
index 530a8f1..5d05d0b 100644
--- a/computing/d_table.py
+++ b/computing/d_table.py
@@ -89,8 +89,8 @@ class DTable(CTableABC):
 
     def reduce(self, func: typing.Callable):
         ret_val = None
-        for v in self.__data.values():
-            if ret_val is None:
+        for i, v in enumerate(self.__data.values()):
+            if i == 0:
                 ret_val = v
             else:
                 ret_val = func(ret_val, v)
-- 
2.43.0


From 7347e8d195ff116e2cf9c7ddbb58e677612709e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:00 +0000
Subject: [PATCH 26/44] fix: filter keeps the records whose predicate is true
 in the usual sense

---
 computing/d_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/computing/d_table.py b/computing/d_table.py
index 5d05d0b..ff67723 100644
--- a/computing/d_table.py
+++ b/computing/d_table.py
@@ -99,7 +99,7 @@ class DTable(CTableABC):
     def filter(self, func: typing.Callable):
         new_table = []
         for k, v in self.__data.items():
-            if func(k, v) == True:
+            if func(k, v):
                 new_table.append((k, v))
         return DTable(True, new_table)
 
-- 
2.43.0


From 621be6d32ef4e8c4c367d27cb6f936d81c9d0032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:36 +0000
Subject: [PATCH 27/44] fix: receiving copes with fragmented headers and
 reports a closed connection

---
 federation/transfer_inst.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/federation/transfer_inst.py b/federation/transfer_inst.py
index 0d1d7b0..3dfa964 100644
--- a/federation/transfer_inst.py
+++ b/federation/transfer_inst.py
@@ -33,19 +33,28 @@ class TransferInst:
         #     full_msg = full_msg + more
         #     nowsize += len(more)
 
-        msg = cs.recv(16)
+        msg = TransferInst.recv_exact(cs, 16)
         length = int(msg[:16])
         # LOGGER.debug('len of recv_msg is {}'.format(length))
-        full_msg = b''
-        nowsize = len(full_msg)
-        while nowsize < length:
-            more = cs.recv(length - nowsize)
-            full_msg = full_msg + more
-            nowsize += len(more)
+        full_msg = TransferInst.recv_exact(cs, length)
 
         # LOGGER.debug('true len of recv_msg is {}'.format(length))
         return pickle.loads(full_msg)
 
+    @staticmethod
+    def recv_exact(cs, length):
+        """
+        receive exactly length bytes, however the network fragments them
+
+        """
+        full_msg = bytearray()
+        while len(full_msg) < length:
+            more = cs.recv(length - len(full_msg))
+            if not more:
+                raise ConnectionError('the peer closed the connection, {} of {} bytes received'.format(len(full_msg), length))
+            full_msg += more
+        return bytes(full_msg)
+
 
 class TransferInstGuest(TransferInst):
     def __init__(self, port: int=12345, conn_num: int=1) -> None:
-- 
2.43.0


From 908fcd945ba81dcce8d7bc4a7700999ff6fb28e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:15 +0000
Subject: [PATCH 28/44] fix: histograms without a feature selection count
 absent values, too

---
 ml/tree/feateur_histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/tree/feateur_histogram.py b/ml/tree/feateur_histogram.py
index ca875c5..a529987 100644
--- a/ml/tree/feateur_histogram.py
+++ b/ml/tree/feateur_histogram.py
@@ -148,7 +148,7 @@ class FeatureHistogram(object):
 
         for nid in range(node_num):
             for fid in range(bin_split_points.shape[0]):
-                if valid_features is not None and valid_features[fid] is True:
+                if valid_features is None or valid_features[fid] is True:
                     sparse_point = bin_sparse_points[fid]
                     node_histograms[nid][fid][sparse_point][0] += zero_opt_node_sum[nid][0] - zero_optim[nid][fid][0]
                     node_histograms[nid][fid][sparse_point][1] += zero_opt_node_sum[nid][1] - zero_optim[nid][fid][1]
-- 
2.43.0


From 97832787b457a6926bc4d6100c090abcf70e328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:38 +0000
Subject: [PATCH 29/44] fix: softplus does not overflow for large inputs

---
 ml/optim/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/optim/activation.py b/ml/optim/activation.py
index 281ace9..b5b050a 100644
--- a/ml/optim/activation.py
+++ b/ml/optim/activation.py
@@ -37,7 +37,7 @@ def sigmoid(x):
 
 
 def softplus(x):
-    return np.log(1. + np.exp(x))
+    return np.logaddexp(0., x)
 
 
 def softsign(x):
-- 
2.43.0


From 2b75ff19e719b446142efc46e4100058c35f8eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:19 +0000
Subject: [PATCH 30/44] fix: decision tree parameters do not share their
 default criterion_params

---
 ml/param/boosting_tree_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/param/boosting_tree_param.py b/ml/param/boosting_tree_param.py
index a66117e..f596c57 100644
--- a/ml/param/boosting_tree_param.py
+++ b/ml/param/boosting_tree_param.py
@@ -105,7 +105,7 @@ class DecisionTreeParam(BaseParam):
                  max_split_nodes=consts.MAX_SPLIT_NODES, feature_importance_type="split",
                  n_iter_no_change=True, tol=0.001):
         self.criterion_method = criterion_method
-        self.criterion_params = criterion_params
+        self.criterion_params = copy.copy(criterion_params)
         self.max_depth = max_depth
         self.min_sample_split = min_sample_split
         self.min_impurity_split = min_imputiry_split
-- 
2.43.0


From 5266d51a16954adddd2eca14edb90ce7fc3f2e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:20 +0000
Subject: [PATCH 31/44] fix: DecisionTreeParam takes min_impurity_split by its
 documented name

---
 ml/param/boosting_tree_param.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/param/boosting_tree_param.py b/ml/param/boosting_tree_param.py
index f596c57..be60b7f 100644
--- a/ml/param/boosting_tree_param.py
+++ b/ml/param/boosting_tree_param.py
@@ -101,14 +101,14 @@ class DecisionTreeParam(BaseParam):
     """
 
     def __init__(self, criterion_method="xgboost", criterion_params=[0.1], max_depth=5,
-                 min_sample_split=2, min_imputiry_split=1e-3, min_leaf_node=1,
+                 min_sample_split=2, min_impurity_split=1e-3, min_leaf_node=1,
                  max_split_nodes=consts.MAX_SPLIT_NODES, feature_importance_type="split",
                  n_iter_no_change=True, tol=0.001):
         self.criterion_method = criterion_method
         self.criterion_params = copy.copy(criterion_params)
         self.max_depth = max_depth
         self.min_sample_split = min_sample_split
-        self.min_impurity_split = min_imputiry_split
+        self.min_impurity_split = min_impurity_split
         self.min_leaf_node = min_leaf_node
         self.max_split_nodes = max_split_nodes
         self.feature_importance_type = feature_importance_type
-- 
2.43.0


From b4cb458d3c7704eee34ad85481ce8fa8bed95c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:09 +0000
Subject: [PATCH 32/44] fix: classification accepts the objective's name in any
 letter case, as regression does

---
 ml/param/boosting_tree_param.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ml/param/boosting_tree_param.py b/ml/param/boosting_tree_param.py
index be60b7f..9a841e2 100644
--- a/ml/param/boosting_tree_param.py
+++ b/ml/param/boosting_tree_param.py
@@ -40,8 +40,7 @@ class ObjectiveParam(BaseParam):
                                                        descr)
 
         if task_type == consts.CLASSIFICATION:
-            if self.objective != "cross_entropy":
-                raise ValueError("objective param's objective {} not supported".format(self.objective))
+            self.objective = self.check_and_change_lower(self.objective, ["cross_entropy"], descr)
 
         elif task_type == consts.REGRESSION:
             self.objective = self.check_and_change_lower(self.objective,
-- 
2.43.0


From c9a3ed8301a60308e435274970077704a2c43a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:09 +0000
Subject: [PATCH 33/44] fix: checking boosting tree parameters checks all of
 their parts

---
 ml/param/boosting_tree_param.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ml/param/boosting_tree_param.py b/ml/param/boosting_tree_param.py
index 9a841e2..d5b9c2a 100644
--- a/ml/param/boosting_tree_param.py
+++ b/ml/param/boosting_tree_param.py
@@ -256,4 +256,10 @@ class BoostingTreeParam(BaseParam):
                 "boosting tree param's bin_num {} not supported, should be positive integer greater than 1".format(
                     self.bin_num))
 
+        self.encrypted_mode_calculator_param.check()
+
+        self.predict_param.check()
+
+        self.cv_param.check()
+
         return True
-- 
2.43.0


From e4bef94b184847e537c29dfdccb720791925d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:10 +0000
Subject: [PATCH 34/44] fix: cross validation parameters accept the documented
 mode and role and check the evaluation part

---
 ml/param/cross_validation_param.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml/param/cross_validation_param.py b/ml/param/cross_validation_param.py
index aa41347..979f80c 100644
--- a/ml/param/cross_validation_param.py
+++ b/ml/param/cross_validation_param.py
@@ -60,9 +60,10 @@ class CrossValidationParam(BaseParam):
     def check(self):
         model_param_descr = "cross validation param's "
         self.check_positive_integer(self.n_splits, model_param_descr)
-        self.check_valid_value(self.mode, model_param_descr, valid_values=[consts.HOMO, consts.HETERO])
-        self.check_valid_value(self.role, model_param_descr, valid_values=[consts.HOST, consts.GUEST, consts.ARBITER])
+        self.mode = self.check_and_change_lower(self.mode, [consts.HOMO, consts.HETERO], model_param_descr)
+        self.role = self.check_and_change_lower(self.role, [consts.HOST, consts.GUEST, consts.ARBITER], model_param_descr)
         self.check_boolean(self.shuffle, model_param_descr)
         self.check_positive_integer(self.random_seed, model_param_descr)
+        self.evaluate_param.check()
 
 
-- 
2.43.0


From c4571f457daa0a5b14b34af69c489c4ed8eba643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:11 +0000
Subject: [PATCH 35/44] fix: binning parameters are checked as documented

---
 ml/param/feature_binning_param.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ml/param/feature_binning_param.py b/ml/param/feature_binning_param.py
index fb516b5..56d849e 100644
--- a/ml/param/feature_binning_param.py
+++ b/ml/param/feature_binning_param.py
@@ -27,7 +27,7 @@ class TransformParam(BaseParam):
         descr = "Transform Param's "
         if self.transform_cols is not None and self.transform_cols != -1:
             self.check_defined_type(self.transform_cols, descr, ['list'])
-        self.check_defined_type(self.transform_type, descr, ['bin_num', None])
+        self.check_valid_value(self.transform_type, descr, ['bin_num', None])
         
 
 class FeatureBinningParam(BaseParam):
@@ -99,6 +99,10 @@ class FeatureBinningParam(BaseParam):
         self.check_positive_integer(self.compress_thres, descr)
         self.check_positive_integer(self.head_size, descr)
         self.check_decimal_float(self.error, descr)
+        if self.error >= 1:
+            raise ValueError(descr + " error {} not supported, should be less than 1".format(self.error))
         self.check_positive_integer(self.bin_num, descr)
         self.check_defined_type(self.cols, descr, ['list', 'int', 'RepeatedScalarContainer'])
         self.check_open_unit_interval(self.adjustment_factor, descr)
+        self.check_boolean(self.local_only, descr)
+        self.transform_param.check()
-- 
2.43.0


From 2060c157095d8381647141302171db3de020666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:12 +0000
Subject: [PATCH 36/44] fix: encryption parameters without a method can be
 checked

---
 ml/param/encrypt_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/param/encrypt_param.py b/ml/param/encrypt_param.py
index 70d0f4c..ff8006a 100644
--- a/ml/param/encrypt_param.py
+++ b/ml/param/encrypt_param.py
@@ -48,7 +48,7 @@ class EncryptParam(BaseParam):
             raise ValueError(
                 "encrypt_param's method {} not supported, should be str type".format(
                     self.method))
-        else:
+        elif self.method is not None:
             user_input = self.method.lower()
             if user_input == 'paillier':
                 self.method = consts.PAILLIER
-- 
2.43.0


From d812f4f5453ba554b26deae2170c5e6762b88bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:59 +0000
Subject: [PATCH 37/44] fix: column extremes beyond the integer range are
 reported

---
 ml/statistic/statics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 8f0cdce..9a17ec6 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -16,7 +16,6 @@
 
 import functools
 import math
-import sys
 
 from ml.feature.binning.quantile_binning import QuantileBinning
 from ml.feature.quantile_summaries import QuantileSummaries
@@ -37,8 +36,8 @@ class SummaryStatistics(object):
 
         self.sum = 0
         self.sum_square = 0
-        self.max_value = - sys.maxsize - 1
-        self.min_value = sys.maxsize
+        self.max_value = - math.inf
+        self.min_value = math.inf
         self.count = 0
 
     def add_value(self, value):
-- 
2.43.0


From 1faa1e473375144165046a032d1940cb39053fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:16 +0000
Subject: [PATCH 38/44] fix: rounding cannot make a column's variance negative

---
 ml/statistic/statics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 9a17ec6..2b14030 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -76,7 +76,8 @@ class SummaryStatistics(object):
     def variance(self):
         mean = self.mean
         variance = self.sum_square / self.count - 2 * self.sum * mean / self.count + mean ** 2
-        if math.fabs(variance) < consts.FLOAT_ZERO:
+        # rounding can make it negative
+        if variance < consts.FLOAT_ZERO:
             return 0.0
         return variance
 
-- 
2.43.0


From 3abf57631e47bc9e0f5a76a35ef0a15cc624943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:30 +0000
Subject: [PATCH 39/44] fix: a component's output contains the predictions of
 the evaluation data, too

---
 ml/model_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/model_base.py b/ml/model_base.py
index 933e193..409ae17 100644
--- a/ml/model_base.py
+++ b/ml/model_base.py
@@ -105,7 +105,7 @@ class ModelBase(object):
                         predict_output_res = eval_data_predict_res.mapValues(lambda d: d + ["validation"])
 
                         if self.data_output:
-                            self.data_output.union(predict_output_res)
+                            self.data_output = self.data_output.union(predict_output_res)
                         else:
                             self.data_output = predict_output_res
 
@@ -134,7 +134,7 @@ class ModelBase(object):
                     eval_data_output = eval_data_output.mapValues(lambda value: value + ["validation"])
 
                 if self.data_output and eval_data_output:
-                    self.data_output.union(eval_data_output)
+                    self.data_output = self.data_output.union(eval_data_output)
                 elif not self.data_output and eval_data_output:
                     self.data_output = eval_data_output
 
-- 
2.43.0


From 71a6cc6dae9c78ce2ca08e9f6912c3911f088ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:43 +0000
Subject: [PATCH 40/44] fix: rows with new keys were dropped when encrypting by
 difference

---
 ml/secureprotol/encrypt_mode.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ml/secureprotol/encrypt_mode.py b/ml/secureprotol/encrypt_mode.py
index ca0ae05..b2c0b4b 100644
--- a/ml/secureprotol/encrypt_mode.py
+++ b/ml/secureprotol/encrypt_mode.py
@@ -75,6 +75,11 @@ class EncryptModeCalculator(object):
         else:
             diff_data = input_data.join(self.prev_data, self.get_differance) 
             new_data = diff_data.join(self.prev_encrypted_data, self.add_differance)
+
+            # rows whose keys are new have no previous ciphertext to start from
+            fresh_data = input_data.subtractByKey(self.prev_data)
+            if fresh_data.count() > 0:
+                new_data = new_data.union(fresh_data.mapValues(self.encrypt_row))
             
             """temporary code, clear unused table begin"""
             rubbish_list = [diff_data]
-- 
2.43.0


From ebf95a0e89b4ae0dc67c209f18b47b4e47a067a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 41/44] fix: map boolean class labels to class indexes

---
 ml/tree/hetero_secureboosting_tree_guest.py | 3 ++-
 xgboost/hetero_secureboosting_tree_guest.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ml/tree/hetero_secureboosting_tree_guest.py b/ml/tree/hetero_secureboosting_tree_guest.py
index 29b8084..55b7f69 100644
--- a/ml/tree/hetero_secureboosting_tree_guest.py
+++ b/ml/tree/hetero_secureboosting_tree_guest.py
@@ -136,7 +136,8 @@ class HeteroSecureBoostingTreeGuest(BoostingTree):
             range_from_zero = True
             for _class in self.classes_:
                 try:
-                    if _class >= 0 and _class < range_from_zero and isinstance(_class, int):
+                    if _class >= 0 and _class < range_from_zero and isinstance(_class, int) \
+                            and not isinstance(_class, bool):
                         continue
                     else:
                         range_from_zero = False
diff --git a/xgboost/hetero_secureboosting_tree_guest.py b/xgboost/hetero_secureboosting_tree_guest.py
index 65c452f..36d1b17 100644
--- a/xgboost/hetero_secureboosting_tree_guest.py
+++ b/xgboost/hetero_secureboosting_tree_guest.py
@@ -136,7 +136,8 @@ class HeteroSecureBoostingTreeGuest(BoostingTree):
             range_from_zero = True
             for _class in self.classes_:
                 try:
-                    if _class >= 0 and _class < range_from_zero and isinstance(_class, int):
+                    if _class >= 0 and _class < range_from_zero and isinstance(_class, int) \
+                            and not isinstance(_class, bool):
                         continue
                     else:
                         range_from_zero = False
-- 
2.43.0


From a22e0239e55abf81ae2160f4c8f1da54b1e781ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 42/44] fix: encode -2**63, whose absolute value numpy cannot
 hold, as itself and not as zero

---
 ml/secureprotol/fixedpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index 077891b..411d1b9 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -59,7 +59,7 @@ class FixedPointNumber(object):
         elif isinstance(scalar, (np.float16, np.float32, np.float64)):
             scalar = float(scalar)
 
-        if np.abs(scalar) < 1e-200:
+        if abs(scalar) < 1e-200:
             scalar = 0
         
         if n is None:
-- 
2.43.0


From 5bea10da9502e85de596d212ec2e48bbfc48b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:04 +0000
Subject: [PATCH 43/44] fix: decode fixed point numbers of large exponents
 without overflow

---
 ml/secureprotol/fixedpoint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index 411d1b9..6f6abda 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -107,6 +107,10 @@ class FixedPointNumber(object):
         else:
             raise OverflowError('Overflow detected in decode number')
 
+        if self.exponent > 0:
+            # int / int does not overflow or underflow where the quotient does not
+            return mantissa / pow(self.BASE, self.exponent)
+
         return mantissa * pow(self.BASE, -self.exponent)
  
     def increase_exponent_to(self, new_exponent):
-- 
2.43.0


From 906f92de8f6eacf38f310f67689cde852e4775c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 44/44] fix: merging quantile summaries keeps the rank
 guarantee

---
 ml/feature/quantile_summaries.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index bb65fd7..db26e79 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -133,15 +133,17 @@ class QuantileSummaries(object):
             self.sampled = [Stats(s.value, s.g, s.delta) for s in other.sampled]
             return
 
-        # merge two sorted array
+        # merge two sorted array, how many numbers of one array precede a sample of the other one
+        # is only known up to the uncertainty of the sample which follows it there
         new_sample = []
         i, j = 0, 0
         while i < len(self.sampled) and j < len(other.sampled):
-            if self.sampled[i].value < other.sampled[j].value:
-                new_sample.append(self.sampled[i])
+            mine, others = self.sampled[i], other.sampled[j]
+            if mine.value < others.value:
+                new_sample.append(Stats(mine.value, mine.g, mine.delta + others.g + others.delta - 1))
                 i += 1
             else:
-                new_sample.append(Stats(other.sampled[j].value, other.sampled[j].g, other.sampled[j].delta))
+                new_sample.append(Stats(others.value, others.g, others.delta + mine.g + mine.delta - 1))
                 j += 1
         new_sample += self.sampled[i:]
         new_sample += [Stats(s.value, s.g, s.delta) for s in other.sampled[j:]]
-- 
2.43.0

