From e7153f5ed4bf28a0063e11a4084e810cea5a6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 01/32] fix: signs of the Riesz representer in DoubleMLDIDCS
 without in-sample normalization

---
 doubleml/did/did_cs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/did/did_cs.py b/doubleml/did/did_cs.py
index a198bce..0fe3bcd 100644
--- a/doubleml/did/did_cs.py
+++ b/doubleml/did/did_cs.py
@@ -496,8 +496,8 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
                 m_alpha_1 = np.divide(1.0, lambda_hat) + np.divide(1.0, 1.0 - lambda_hat)
                 m_alpha = np.multiply(np.divide(d, np.square(p_hat)), np.multiply(m_alpha_1, 1.0 + propensity_weight_d0))
 
-                rr_1 = np.divide(t, np.multiply(p_hat, lambda_hat)) + np.divide(1.0 - t, np.multiply(p_hat, 1.0 - lambda_hat))
-                rr_2 = d + np.multiply(1.0 - d, propensity_weight_d0)
+                rr_1 = np.divide(t, np.multiply(p_hat, lambda_hat)) - np.divide(1.0 - t, np.multiply(p_hat, 1.0 - lambda_hat))
+                rr_2 = d - np.multiply(1.0 - d, propensity_weight_d0)
                 rr = np.multiply(rr_1, rr_2)
         else:
             assert self.score == "experimental"
-- 
2.43.0


From cc1f43fb95b2e4796c803cc8e11c3509f69d9d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 02/32] fix: use class probabilities of outcome classifiers in
 DoubleMLSSM with nonignorable nonresponse

---
 doubleml/irm/ssm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index 5a6458c..f6d9163 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -348,7 +348,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d1"][i_fold].fit(xpi_s1_d1_train_2, y_s1_d1_train_2)
 
                 # predict conditional outcome
-                g_hat_d1["preds"][test_inds] = fitted_models["ml_g_d1"][i_fold].predict(xpi_test)
+                if self._predict_method["ml_g"] == "predict_proba":
+                    g_hat_d1["preds"][test_inds] = _predict_zero_one_propensity(fitted_models["ml_g_d1"][i_fold], xpi_test)
+                else:
+                    g_hat_d1["preds"][test_inds] = fitted_models["ml_g_d1"][i_fold].predict(xpi_test)
                 g_hat_d1["targets"][test_inds] = y[test_inds]
 
                 # estimate conditional outcome on second training sample - control
@@ -359,7 +362,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d0"][i_fold].fit(xpi_s1_d0_train_2, y_s1_d0_train_2)
 
                 # predict conditional outcome
-                g_hat_d0["preds"][test_inds] = fitted_models["ml_g_d0"][i_fold].predict(xpi_test)
+                if self._predict_method["ml_g"] == "predict_proba":
+                    g_hat_d0["preds"][test_inds] = _predict_zero_one_propensity(fitted_models["ml_g_d0"][i_fold], xpi_test)
+                else:
+                    g_hat_d0["preds"][test_inds] = fitted_models["ml_g_d0"][i_fold].predict(xpi_test)
                 g_hat_d0["targets"][test_inds] = y[test_inds]
 
                 if return_models:
-- 
2.43.0


From 69de075ef26b14b529623b4c7fee2e88e8451009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 03/32] fix: restrict outcome targets in DoubleMLSSM to the
 selected treatment group

---
 doubleml/irm/ssm.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index f6d9163..cd7c799 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -10,7 +10,13 @@ from doubleml.double_ml import DoubleML
 from doubleml.double_ml_data import DoubleMLData
 from doubleml.double_ml_score_mixins import LinearScoreMixin
 from doubleml.utils._checks import _check_finite_predictions, _check_score, _check_trimming
-from doubleml.utils._estimation import _dml_cv_predict, _dml_tune, _get_cond_smpls_2d, _predict_zero_one_propensity
+from doubleml.utils._estimation import (
+    _cond_targets,
+    _dml_cv_predict,
+    _dml_tune,
+    _get_cond_smpls_2d,
+    _predict_zero_one_propensity,
+)
 from doubleml.utils._propensity_score import _trimm
 
 
@@ -374,6 +380,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                     pi_hat["models"] = fitted_models["ml_pi"]
                     m_hat["models"] = fitted_models["ml_m"]
 
+        # outcome targets are only available in the respective selected treatment group
+        g_hat_d1["targets"] = _cond_targets(g_hat_d1["targets"], cond_sample=((d == 1) & (s == 1)))
+        g_hat_d0["targets"] = _cond_targets(g_hat_d0["targets"], cond_sample=((d == 0) & (s == 1)))
+
         m_hat["preds"] = _trimm(m_hat["preds"], self._trimming_rule, self._trimming_threshold)
 
         # treatment indicator
-- 
2.43.0


From b44ef8ed2c7a86744132c12c189234b5a021dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 04/32] fix: nonnegative standard errors of DoubleMLFramework
 objects multiplied by a negative scalar

---
 doubleml/double_ml_framework.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 6078602..d23cba5 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -398,8 +398,8 @@ class DoubleMLFramework:
             all_thetas = np.multiply(other, self._all_thetas)
 
             var_scaling_factors = self._var_scaling_factors
-            ses = np.multiply(other, self._ses)
-            all_ses = np.multiply(other, self._all_ses)
+            ses = np.multiply(abs(other), self._ses)
+            all_ses = np.multiply(abs(other), self._all_ses)
             scaled_psi = np.multiply(other, self._scaled_psi)
 
             doubleml_dict = {
-- 
2.43.0


From b1c7be6afa4bc5a6907d2e2af194e37714b08106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 05/32] fix: copy column lists passed to the setters of the
 data classes

---
 doubleml/double_ml_data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index 3ebf2f7..d73a66f 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -430,7 +430,7 @@ class DoubleMLData(DoubleMLBaseData):
             if not set(value).issubset(set(self.all_variables)):
                 raise ValueError("Invalid covariates x_cols. At least one covariate is no data column.")
             assert set(value).issubset(set(self.all_variables))
-            self._x_cols = value
+            self._x_cols = list(value)
         else:
             excluded_cols = set.union({self.y_col}, set(self.d_cols))
             if self.z_cols is not None:
@@ -465,7 +465,7 @@ class DoubleMLData(DoubleMLBaseData):
             raise ValueError("Invalid treatment variable(s) d_cols: Contains duplicate values.")
         if not set(value).issubset(set(self.all_variables)):
             raise ValueError("Invalid treatment variable(s) d_cols. At least one treatment variable is no data column.")
-        self._d_cols = value
+        self._d_cols = list(value)
         if reset_value:
             self._check_disjoint_sets()
             # by default, we initialize to the first treatment variable
@@ -516,7 +516,7 @@ class DoubleMLData(DoubleMLBaseData):
                 raise ValueError(
                     "Invalid instrumental variable(s) z_cols. At least one instrumental variable is no data column."
                 )
-            self._z_cols = value
+            self._z_cols = list(value)
         else:
             self._z_cols = None
         if reset_value:
@@ -984,7 +984,7 @@ class DoubleMLClusterData(DoubleMLData):
             raise ValueError("Invalid cluster variable(s) cluster_cols: Contains duplicate values.")
         if not set(value).issubset(set(self.all_variables)):
             raise ValueError("Invalid cluster variable(s) cluster_cols. At least one cluster variable is no data column.")
-        self._cluster_cols = value
+        self._cluster_cols = list(value)
         if reset_value:
             self._check_disjoint_sets()
             self._set_cluster_vars()
-- 
2.43.0


From edf2aa5f026de9cdc17d3a2430dab89158055dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 06/32] fix: update binary_treats and binary_outcome when
 d_cols or y_col change

---
 doubleml/double_ml_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index d73a66f..d535c0b 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -468,6 +468,7 @@ class DoubleMLData(DoubleMLBaseData):
         self._d_cols = list(value)
         if reset_value:
             self._check_disjoint_sets()
+            self._binary_treats = self._check_binary_treats()
             # by default, we initialize to the first treatment variable
             self.set_x_d(self.d_cols[0])
 
@@ -490,6 +491,7 @@ class DoubleMLData(DoubleMLBaseData):
         self._y_col = value
         if reset_value:
             self._check_disjoint_sets()
+            self._binary_outcome = self._check_binary_outcome()
             self._set_y_z_t_s()
 
     @property
-- 
2.43.0


From cfaac418836d2e2ffdd06c1ded3f2c96b5b008df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 07/32] fix: leave data objects unchanged when a setter rejects
 the new value

---
 doubleml/double_ml_data.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index d535c0b..6af2fce 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -1,3 +1,4 @@
+import functools
 import io
 from abc import ABC, abstractmethod
 
@@ -11,6 +12,21 @@ from .utils._checks import _check_set
 from .utils._estimation import _assure_2d_array
 
 
+def _restore_if_rejected(setter):
+    """Leave the object unchanged if a property setter rejects the new value."""
+
+    @functools.wraps(setter)
+    def wrapper(self, value):
+        attributes = self.__dict__.copy()
+        try:
+            setter(self, value)
+        except Exception:
+            self.__dict__.update(attributes)
+            raise
+
+    return wrapper
+
+
 class DoubleMLBaseData(ABC):
     """Base Class Double machine learning data-backends"""
 
@@ -415,6 +431,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._x_cols
 
     @x_cols.setter
+    @_restore_if_rejected
     def x_cols(self, value):
         reset_value = hasattr(self, "_x_cols")
         if value is not None:
@@ -452,6 +469,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._d_cols
 
     @d_cols.setter
+    @_restore_if_rejected
     def d_cols(self, value):
         reset_value = hasattr(self, "_d_cols")
         if isinstance(value, str):
@@ -480,6 +498,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._y_col
 
     @y_col.setter
+    @_restore_if_rejected
     def y_col(self, value):
         reset_value = hasattr(self, "_y_col")
         if not isinstance(value, str):
@@ -502,6 +521,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._z_cols
 
     @z_cols.setter
+    @_restore_if_rejected
     def z_cols(self, value):
         reset_value = hasattr(self, "_z_cols")
         if value is not None:
@@ -533,6 +553,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._t_col
 
     @t_col.setter
+    @_restore_if_rejected
     def t_col(self, value):
         reset_value = hasattr(self, "_t_col")
         if value is not None:
@@ -558,6 +579,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._s_col
 
     @s_col.setter
+    @_restore_if_rejected
     def s_col(self, value):
         reset_value = hasattr(self, "_s_col")
         if value is not None:
@@ -583,6 +605,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._use_other_treat_as_covariate
 
     @use_other_treat_as_covariate.setter
+    @_restore_if_rejected
     def use_other_treat_as_covariate(self, value):
         reset_value = hasattr(self, "_use_other_treat_as_covariate")
         if not isinstance(value, bool):
@@ -973,6 +996,7 @@ class DoubleMLClusterData(DoubleMLData):
         return self._cluster_cols
 
     @cluster_cols.setter
+    @_restore_if_rejected
     def cluster_cols(self, value):
         reset_value = hasattr(self, "_cluster_cols")
         if isinstance(value, str):
@@ -1006,6 +1030,7 @@ class DoubleMLClusterData(DoubleMLData):
         return self._cluster_vars.values
 
     @DoubleMLData.x_cols.setter
+    @_restore_if_rejected
     def x_cols(self, value):
         if value is not None:
             # this call might become much easier with https://github.com/python/cpython/pull/26194
-- 
2.43.0


From 843211ec46a74f57d7d558d42ef6e6fbb30bd7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 08/32] fix: drop the results of a previous fit in
 set_sample_splitting

---
 doubleml/double_ml.py | 8 ++++++++
 doubleml/irm/apos.py  | 3 +++
 doubleml/irm/qte.py   | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 1b88c8e..e84f2c4 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1295,6 +1295,14 @@ class DoubleML(ABC):
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
 
+        # results of a previous fit do not refer to the new sample splitting
+        self._framework = None
+        self._predictions = None
+        self._nuisance_targets = None
+        self._nuisance_loss = None
+        self._models = None
+        self._sensitivity_elements = None
+
         (
             self._psi,
             self._psi_deriv,
diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index e9b160c..5995fbe 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -697,6 +697,9 @@ class DoubleMLAPOS:
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
 
+        # results of a previous fit do not refer to the new sample splitting
+        self._framework = None
+
         self._modellist = self._initialize_models()
 
         return self
diff --git a/doubleml/irm/qte.py b/doubleml/irm/qte.py
index f05269a..4579923 100644
--- a/doubleml/irm/qte.py
+++ b/doubleml/irm/qte.py
@@ -524,6 +524,9 @@ class DoubleMLQTE:
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
 
+        # results of a previous fit do not refer to the new sample splitting
+        self._framework = None
+
         # initialize all models
         self._modellist_0, self._modellist_1 = self._initialize_models()
 
-- 
2.43.0


From 06a51282c3e5346a151daccc76d70584473ea0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 09/32] fix: drop stored predictions and models of a previous
 fit if they are not stored again

---
 doubleml/double_ml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index e84f2c4..d3ff006 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1001,6 +1001,11 @@ class DoubleML(ABC):
         # initialize loss arrays for nuisance functions evaluation
         self._initialize_nuisance_loss()
 
+        # drop predictions, targets and models of a previous fit
+        self._predictions = None
+        self._nuisance_targets = None
+        self._models = None
+
         if store_predictions:
             self._initialize_predictions_and_targets()
 
-- 
2.43.0


From 57375b1394be52cfa1552673f802a898147277af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 10/32] fix: use newly drawn samples for all treatment levels
 in DoubleMLAPOS

---
 doubleml/irm/apos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 5995fbe..5e854aa 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -640,6 +640,8 @@ class DoubleMLAPOS:
             n_folds=self.n_folds, n_rep=self.n_rep, n_obs=self._dml_data.n_obs, stratify=self._dml_data.d
         )
         self._smpls = obj_dml_resampling.split_samples()
+        # initialize all models
+        self._modellist = self._initialize_models()
 
         return self
 
-- 
2.43.0


From eb7b788c8e141588497ceb1e0631e915aa146567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 11/32] fix: check the cluster partition of every repetition
 and fold

---
 doubleml/utils/_checks.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index 90833de..49491d5 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -429,10 +429,11 @@ def _check_cluster_sample_splitting(all_smpls_cluster, dml_data, n_rep, n_folds)
         for i_cluster in range(dml_data.n_cluster_vars):
             this_cluster_var = dml_data.cluster_vars[:, i_cluster]
             clusters = np.unique(this_cluster_var)
-            cluster_partition = [all_smpls_cluster[0][0][0][i_cluster], all_smpls_cluster[0][0][1][i_cluster]]
-            is_cluster_partition = _check_cluster_partitions(cluster_partition, clusters)
-            if not is_cluster_partition:
-                raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
+            for train_clusters, test_clusters in all_smpls_cluster[i_rep]:
+                cluster_partition = [train_clusters[i_cluster], test_clusters[i_cluster]]
+                is_cluster_partition = _check_cluster_partitions(cluster_partition, clusters)
+                if not is_cluster_partition:
+                    raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
 
     smpls_cluster = all_smpls_cluster
     return smpls_cluster
-- 
2.43.0


From 4e55e59f1b0f0cd045420493a8576ba088222598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 12/32] fix: update the number of folds per cluster in
 set_sample_splitting

---
 doubleml/double_ml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index d3ff006..11a99c7 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1299,6 +1299,8 @@ class DoubleML(ABC):
         self._smpls, self._smpls_cluster, self._n_rep, self._n_folds = _check_sample_splitting(
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
+        if self._is_cluster_data:
+            self._n_folds_per_cluster = int(round(self._n_folds ** (1 / self._dml_data.n_cluster_vars)))
 
         # results of a previous fit do not refer to the new sample splitting
         self._framework = None
-- 
2.43.0


From a75897868b858ab687ae9c9e92603e357eaefa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 13/32] fix: cluster-robust standard errors for sums and
 differences of DoubleMLFramework objects

---
 doubleml/double_ml_framework.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index d23cba5..d970c43 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -308,8 +308,7 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            all_ses = self._est_all_ses(scaled_psi)
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
@@ -356,8 +355,7 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            all_ses = self._est_all_ses(scaled_psi)
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
@@ -440,6 +438,27 @@ class DoubleMLFramework:
     def __rmul__(self, other):
         return self.__mul__(other)
 
+    def _est_all_ses(self, scaled_psi):
+        if not self._is_cluster_data:
+            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), self._var_scaling_factors.reshape(-1, 1))
+            return np.sqrt(sigma2_hat)
+
+        # clustered standard errors (scaled_psi already includes the derivative of the score)
+        all_ses = np.full(scaled_psi.shape[1:], fill_value=np.nan)
+        for i_rep in range(self.n_rep):
+            for i_theta in range(self.n_thetas):
+                sigma2_hat, _ = _var_est(
+                    psi=scaled_psi[:, i_theta, i_rep],
+                    psi_deriv=np.ones_like(scaled_psi[:, i_theta, i_rep]),
+                    smpls=self._cluster_dict["smpls"][i_rep],
+                    is_cluster_data=True,
+                    cluster_vars=self._cluster_dict["cluster_vars"],
+                    smpls_cluster=self._cluster_dict["smpls_cluster"][i_rep],
+                    n_folds_per_cluster=self._cluster_dict["n_folds_per_cluster"],
+                )
+                all_ses[i_theta, i_rep] = np.sqrt(sigma2_hat)
+        return all_ses
+
     def _calc_sensitivity_analysis(self, cf_y, cf_d, rho, level):
         if not self._sensitivity_implemented:
             raise NotImplementedError("Sensitivity analysis is not implemented for this model.")
-- 
2.43.0


From b6d07d770c4e2a6265d62c587e5ec7edfaf79aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:45 +0000
Subject: [PATCH 14/32] fix: store fold-wise tuning results per treatment and
 repetition in tune()

---
 doubleml/double_ml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 11a99c7..696ac2d 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -807,7 +807,7 @@ class DoubleML(ABC):
             raise TypeError(f"return_tune_res must be True or False. Got {str(return_tune_res)}.")
 
         if tune_on_folds:
-            tuning_res = [[None] * self.n_rep] * self._dml_data.n_treat
+            tuning_res = [[None] * self.n_rep for _ in range(self._dml_data.n_treat)]
         else:
             tuning_res = [None] * self._dml_data.n_treat
 
@@ -833,7 +833,7 @@ class DoubleML(ABC):
                         n_iter_randomized_search,
                     )
 
-                    tuning_res[i_rep][i_d] = res
+                    tuning_res[i_d][i_rep] = res
                     nuisance_params.append(res["params"])
 
                 if set_as_params:
-- 
2.43.0


From c83269be90ae7ef7461cccf6de5fd7db8f7e99d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 15/32] fix: do not modify the scoring_methods passed to tune()

---
 doubleml/double_ml.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 696ac2d..14ca8e3 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -763,9 +763,7 @@ class DoubleML(ABC):
                 )
             if not all(k in scoring_methods for k in self.learner_names):
                 # if there are learners for which no scoring_method was set, we fall back to None, i.e., default scoring
-                for learner in self.learner_names:
-                    if learner not in scoring_methods:
-                        scoring_methods[learner] = None
+                scoring_methods = {learner: scoring_methods.get(learner) for learner in self.learner_names}
 
         if not isinstance(tune_on_folds, bool):
             raise TypeError(f"tune_on_folds must be True or False. Got {str(tune_on_folds)}.")
-- 
2.43.0


From 828770fccc4b1961e5bdc6cd479f70dd3031e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 16/32] fix: tune IV-type scores with floating point
 predictions if the data is of integer type

---
 doubleml/plm/pliv.py | 6 +++---
 doubleml/plm/plr.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/doubleml/plm/pliv.py b/doubleml/plm/pliv.py
index dc0fbd2..d5b43c2 100644
--- a/doubleml/plm/pliv.py
+++ b/doubleml/plm/pliv.py
@@ -594,9 +594,9 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
             # an ML model for g is obtained for the IV-type score and callable scores
             if "ml_g" in self._learner:
                 # construct an initial theta estimate from the tuned models using the partialling out score
-                l_hat = np.full_like(y, np.nan)
-                m_hat = np.full_like(z, np.nan)
-                r_hat = np.full_like(d, np.nan)
+                l_hat = np.full_like(y, np.nan, dtype="float64")
+                m_hat = np.full_like(z, np.nan, dtype="float64")
+                r_hat = np.full_like(d, np.nan, dtype="float64")
                 for idx, (train_index, _) in enumerate(smpls):
                     l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                     m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index 1b45d86..a36f970 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -324,8 +324,8 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
         # an ML model for g is obtained for the IV-type score and callable scores
         if "ml_g" in self._learner:
             # construct an initial theta estimate from the tuned models using the partialling out score
-            l_hat = np.full_like(y, np.nan)
-            m_hat = np.full_like(d, np.nan)
+            l_hat = np.full_like(y, np.nan, dtype="float64")
+            m_hat = np.full_like(d, np.nan, dtype="float64")
             for idx, (train_index, _) in enumerate(smpls):
                 l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                 m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
-- 
2.43.0


From 6aa2b9feb6aa14185c6e8c03d83868fafd89cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 17/32] fix: first stage predictions of RDFlex are not
 truncated if the outcome or treatment is of integer type

---
 doubleml/rdd/rdd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 858ae5e..3052be4 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -425,7 +425,7 @@ class RDFlex:
         ZX_left = np.column_stack((Z_left, X))
         ZX_right = np.column_stack((Z_right, X))
 
-        mu_left, mu_right = np.full_like(outcome, fill_value=np.nan), np.full_like(outcome, fill_value=np.nan)
+        mu_left, mu_right = np.full(outcome.shape, fill_value=np.nan), np.full(outcome.shape, fill_value=np.nan)
 
         for train_index, test_index in smpls:
             estimator = clone(self._learner[estimator_name])
-- 
2.43.0


From 2509989bb5765aca5a9bfa7d83a2d96e6aec5cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 18/32] fix: use external propensity predictions of the
 corresponding observations in DoubleMLPQ

---
 doubleml/irm/pq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 4cdcd74..25e1478 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -324,7 +324,7 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
                         ml_m_prelim, x_train_1, d_train_1, method="predict_proba", smpls=smpls_prelim
                     )["preds"]
                 else:
-                    m_hat_prelim = m_hat["preds"][np.concatenate([test for _, test in smpls_prelim])]
+                    m_hat_prelim = m_hat["preds"][train_inds_1]
                 m_hat_prelim = _trimm(m_hat_prelim, self.trimming_rule, self.trimming_threshold)
                 if self._normalize_ipw:
                     m_hat_prelim = _normalize_ipw(m_hat_prelim, d_train_1)
-- 
2.43.0


From aed5c97394fc8043a4e870d39259b48bc8c97972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 19/32] fix: store_models with external predictions in
 DoubleMLPQ and DoubleMLLPQ

---
 doubleml/irm/lpq.py | 2 +-
 doubleml/irm/pq.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index 56a9796..b5eb6fa 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -493,7 +493,7 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         m_d_z0_hat["targets"] = _cond_targets(d, cond_sample=(z == 0))
         m_d_z1_hat["targets"] = _cond_targets(d, cond_sample=(z == 1))
 
-        if return_models:
+        if return_models and not all(ext_preds):
             m_z_hat["models"] = fitted_models["ml_m_z"]
             m_d_z0_hat["models"] = fitted_models["ml_m_d_z0"]
             m_d_z1_hat["models"] = fitted_models["ml_m_d_z1"]
diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 25e1478..7dcb58a 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -366,8 +366,8 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
         g_hat["targets"] = _cond_targets(g_hat["targets"], cond_sample=(d == self.treatment))
 
         if return_models:
-            g_hat["models"] = fitted_models["ml_g"]
-            m_hat["models"] = fitted_models["ml_m"]
+            g_hat["models"] = fitted_models.get("ml_g")
+            m_hat["models"] = fitted_models.get("ml_m")
 
         # clip propensities and normalize ipw weights
         m_hat["preds"] = _trimm(m_hat["preds"], self.trimming_rule, self.trimming_threshold)
-- 
2.43.0


From 0deadb80d44057b801c8eb6574706ef365e3a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 20/32] fix: reject external predictions in DoubleMLPLIV
 variants which would ignore them

---
 doubleml/plm/pliv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/plm/pliv.py b/doubleml/plm/pliv.py
index d5b43c2..70beb9a 100644
--- a/doubleml/plm/pliv.py
+++ b/doubleml/plm/pliv.py
@@ -164,6 +164,7 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
         obj._learner = {"ml_r": ml_r}
         obj._predict_method = {"ml_r": "predict"}
         obj._initialize_ml_nuisance_params()
+        obj._external_predictions_implemented = False
         return obj
 
     @classmethod
@@ -181,6 +182,7 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
         obj._learner = {"ml_l": ml_l, "ml_m": ml_m, "ml_r": ml_r}
         obj._predict_method = {"ml_l": "predict", "ml_m": "predict", "ml_r": "predict"}
         obj._initialize_ml_nuisance_params()
+        obj._external_predictions_implemented = False
         return obj
 
     def _initialize_ml_nuisance_params(self):
-- 
2.43.0


From 9acd934a2cae3b0e7241054cfe1bcc51924b1cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 21/32] fix: reject incomplete external predictions in
 DoubleMLLPQ instead of ignoring them

---
 doubleml/irm/lpq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index b5eb6fa..3060d91 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -286,6 +286,8 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         g_du_z0 = external_predictions["ml_g_du_z0"] is not None
         g_du_z1 = external_predictions["ml_g_du_z1"] is not None
         ext_preds = [m_z, m_d_d0, m_d_d1, g_du_z0, g_du_z1]
+        if any(ext_preds) and not all(ext_preds):
+            raise ValueError("External predictions for all estimations or for none are required.")
 
         # create strata for splitting
         strata = self._dml_data.d.reshape(-1, 1) + 2 * self._dml_data.z.reshape(-1, 1)
@@ -330,8 +332,6 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 else:
                     fitted_models[learner] = [clone(self._learner[learner]) for i_fold in range(self.n_folds)]
             ipw_vec = np.full(shape=self.n_folds, fill_value=np.nan)
-        elif any(ext_preds) and not any(ext_preds):
-            raise ValueError("External predictions for all estimations or for none are required.")
         else:
             m_z_hat = {
                 "models": None,
-- 
2.43.0


From ca328163e7c94f3bff2fb0c7212ecdd955b43c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:45 +0000
Subject: [PATCH 22/32] fix: accept dummy coded groups of integer type in
 gate() and gapo()

---
 doubleml/irm/apo.py | 2 +-
 doubleml/irm/irm.py | 2 +-
 doubleml/plm/plr.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/apo.py b/doubleml/irm/apo.py
index e8c7517..ebdf4af 100644
--- a/doubleml/irm/apo.py
+++ b/doubleml/irm/apo.py
@@ -508,7 +508,7 @@ class DoubleMLAPO(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
diff --git a/doubleml/irm/irm.py b/doubleml/irm/irm.py
index 72db088..12fdcf1 100644
--- a/doubleml/irm/irm.py
+++ b/doubleml/irm/irm.py
@@ -518,7 +518,7 @@ class DoubleMLIRM(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index a36f970..84269f2 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -418,7 +418,7 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
 
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
-- 
2.43.0


From 979847cd59d49c8a99e45b51afaefca1a3ba41f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 23/32] fix: allow external predictions for a subset of the
 treatment levels in DoubleMLAPOS

---
 doubleml/irm/apos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 5e854aa..8a44e8d 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -865,7 +865,7 @@ class DoubleMLAPOS:
     def _rename_external_predictions(self, external_predictions):
         d_col = self._dml_data.d_cols[0]
         ext_pred_dict = {treatment_level: {d_col: {}} for treatment_level in self.treatment_levels}
-        for treatment_level in self.treatment_levels:
+        for treatment_level in external_predictions:
             if "ml_g_d_lvl1" in external_predictions[treatment_level]:
                 ext_pred_dict[treatment_level][d_col]["ml_g_d_lvl1"] = external_predictions[treatment_level]["ml_g_d_lvl1"]
             if "ml_m" in external_predictions[treatment_level]:
-- 
2.43.0


From b35ab0061043737f832d1f053c569871f802a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 24/32] fix: match learners by prefix in the evaluation of the
 nuisance losses

---
 doubleml/double_ml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 14ca8e3..d8af2cf 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1108,7 +1108,7 @@ class DoubleML(ABC):
         self._is_classifier = {key: False for key in self.params_names}
         for learner in self.params_names:
             # check if the learner is a classifier
-            learner_keys = [key for key in self._learner.keys() if key in learner]
+            learner_keys = [key for key in self._learner.keys() if learner.startswith(key)]
             assert len(learner_keys) == 1
             self._is_classifier[learner] = self._check_learner(
                 self._learner[learner_keys[0]], learner, regressor=True, classifier=True
@@ -1117,7 +1117,7 @@ class DoubleML(ABC):
             if targets[learner] is None:
                 self._nuisance_loss[learner][self._i_rep, self._i_treat] = np.nan
             else:
-                learner_keys = [key for key in self._learner.keys() if key in learner]
+                learner_keys = [key for key in self._learner.keys() if learner.startswith(key)]
                 assert len(learner_keys) == 1
 
                 if self._is_classifier[learner]:
-- 
2.43.0


From 12e96e2c309d3d79b2bbb7532e8b61add8086a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 25/32] fix: center the influence function of nu2 if it is
 re-estimated based on the riesz representer

---
 doubleml/double_ml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index d8af2cf..ec233eb 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1466,7 +1466,7 @@ class DoubleML(ABC):
                     nu2 = np.mean(psi_nu2, axis=0, keepdims=True)
 
                     self.sensitivity_elements["nu2"][:, :, i_treat] = nu2
-                    self.sensitivity_elements["psi_nu2"][:, :, i_treat] = psi_nu2
+                    self.sensitivity_elements["psi_nu2"][:, :, i_treat] = psi_nu2 - nu2
 
         return
 
-- 
2.43.0


From 51d413c40a95fcd7f9e837e497ab55aa6310530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 26/32] fix: sensitivity_plot uses the passed null hypothesis,
 level and rho and works without a scenario

---
 doubleml/double_ml_framework.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index d970c43..5371095 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -876,7 +876,6 @@ class DoubleMLFramework:
         _check_in_zero_one(grid_bounds[1], "grid_bounds", include_zero=False, include_one=False)
         _check_integer(grid_size, "grid_size", lower_bound=10)
 
-        null_hypothesis = self.sensitivity_params["input"]["null_hypothesis"][idx_treatment]
         unadjusted_theta = self.thetas[idx_treatment]
         # check which side is relvant
         bound = "upper" if (null_hypothesis > unadjusted_theta) else "lower"
@@ -902,7 +901,7 @@ class DoubleMLFramework:
             unadjusted_value = unadjusted_theta
         else:
             assert value == "ci"
-            ci = self.confint(level=self.sensitivity_params["input"]["level"])
+            ci = self.confint(level=level)
             if bound == "upper":
                 unadjusted_value = ci.iloc[idx_treatment, 1]
             else:
@@ -917,19 +916,27 @@ class DoubleMLFramework:
                 sens_dict_bench = self._calc_sensitivity_analysis(
                     cf_y=benchmarks["cf_y"][benchmark_idx],
                     cf_d=benchmarks["cf_d"][benchmark_idx],
-                    rho=self.sensitivity_params["input"]["rho"],
-                    level=self.sensitivity_params["input"]["level"],
+                    rho=rho,
+                    level=level,
                 )
                 benchmark_values[benchmark_idx] = sens_dict_bench[value][bound][idx_treatment]
             benchmark_dict["value"] = benchmark_values
+        # evaluate the scenario of the sensitivity analysis
+        scenario_x, scenario_y, scenario_value = None, None, None
+        if include_scenario:
+            scenario_x = self.sensitivity_params["input"]["cf_d"]
+            scenario_y = self.sensitivity_params["input"]["cf_y"]
+            sens_dict_scenario = self._calc_sensitivity_analysis(cf_y=scenario_y, cf_d=scenario_x, rho=rho, level=level)
+            scenario_value = sens_dict_scenario[value][bound][idx_treatment]
+
         fig = _sensitivity_contour_plot(
             x=cf_d_vec,
             y=cf_y_vec,
             contour_values=contour_values,
             unadjusted_value=unadjusted_value,
-            scenario_x=self.sensitivity_params["input"]["cf_d"],
-            scenario_y=self.sensitivity_params["input"]["cf_y"],
-            scenario_value=self.sensitivity_params[value][bound][idx_treatment],
+            scenario_x=scenario_x,
+            scenario_y=scenario_y,
+            scenario_value=scenario_value,
             include_scenario=include_scenario,
             benchmarks=benchmark_dict,
             fill=fill,
-- 
2.43.0


From 25b9504024ef5fa4859413cc5485f8e5bbbe6d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 27/32] fix: sensitivity_benchmark of DoubleMLAPOS after
 fitting the levels in parallel

---
 doubleml/irm/apos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 8a44e8d..d8e2a5e 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -401,6 +401,8 @@ class DoubleMLAPOS:
 
         for i_level in range(self.n_treatment_levels):
             self._modellist[i_level] = fitted_models[i_level]
+            # models fitted in parallel processes refer to a copy of the data
+            self._modellist[i_level]._dml_data = self._dml_data
             framework_list[i_level] = self._modellist[i_level].framework
 
         # aggregate all frameworks
-- 
2.43.0


From 27ceda52d75d50f10ba603e586b72dfc541aeccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:48 +0000
Subject: [PATCH 28/32] fix: sensitivity_plot shows the bound of each pair of
 sensitivity parameters at its coordinates

---
 doubleml/double_ml_framework.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 5371095..d235a97 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -884,7 +884,7 @@ class DoubleMLFramework:
         cf_d_vec = np.linspace(0, grid_bounds[0], grid_size)
         cf_y_vec = np.linspace(0, grid_bounds[1], grid_size)
 
-        # compute contour values
+        # compute contour values (rows correspond to the y-axis, columns to the x-axis)
         contour_values = np.full(shape=(grid_size, grid_size), fill_value=np.nan)
         for i_cf_d_grid, cf_d_grid in enumerate(cf_d_vec):
             for i_cf_y_grid, cf_y_grid in enumerate(cf_y_vec):
@@ -894,7 +894,7 @@ class DoubleMLFramework:
                     rho=rho,
                     level=level,
                 )
-                contour_values[i_cf_d_grid, i_cf_y_grid] = sens_dict[value][bound][idx_treatment]
+                contour_values[i_cf_y_grid, i_cf_d_grid] = sens_dict[value][bound][idx_treatment]
 
         # get the correct unadjusted value for confidence bands
         if value == "theta":
-- 
2.43.0


From 940082fcec2a648d39a78b07202516c70176ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:20 +0000
Subject: [PATCH 29/32] fix: fit the models of DoubleMLAPOS and DoubleMLQTE in
 parallel for large data sets

joblib maps arrays above 1MB read-only into the worker processes, so that storing
the estimation results in the models raised an error.
---
 doubleml/irm/apos.py | 2 +-
 doubleml/irm/qte.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index d8e2a5e..1bfab61 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -390,7 +390,7 @@ class DoubleMLAPOS:
             ext_pred_dict = None
 
         # parallel estimation of the models
-        parallel = Parallel(n_jobs=n_jobs_models, verbose=0, pre_dispatch="2*n_jobs")
+        parallel = Parallel(n_jobs=n_jobs_models, verbose=0, pre_dispatch="2*n_jobs", mmap_mode="c")
         fitted_models = parallel(
             delayed(self._fit_model)(i_level, n_jobs_cv, store_predictions, store_models, ext_pred_dict)
             for i_level in range(self.n_treatment_levels)
diff --git a/doubleml/irm/qte.py b/doubleml/irm/qte.py
index 4579923..b0f9e07 100644
--- a/doubleml/irm/qte.py
+++ b/doubleml/irm/qte.py
@@ -397,7 +397,7 @@ class DoubleMLQTE:
             raise NotImplementedError(f"External predictions not implemented for {self.__class__.__name__}.")
 
         # parallel estimation of the quantiles
-        parallel = Parallel(n_jobs=n_jobs_models, verbose=0, pre_dispatch="2*n_jobs")
+        parallel = Parallel(n_jobs=n_jobs_models, verbose=0, pre_dispatch="2*n_jobs", mmap_mode="c")
         fitted_models = parallel(
             delayed(self._fit_quantile)(i_quant, n_jobs_cv, store_predictions, store_models)
             for i_quant in range(self.n_quantiles)
-- 
2.43.0


From 62019b6e46c510e9fe3f9f37cbdf2b19fbce9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:04 +0000
Subject: [PATCH 30/32] fix: accept a nested split without sample splitting, as
 needed by DoubleMLAPOS

---
 doubleml/utils/_checks.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index 49491d5..01fb4f6 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -501,7 +501,14 @@ def _check_sample_splitting(all_smpls, all_smpls_cluster, dml_data, is_cluster_d
             if all(smpls_are_partitions):
                 n_rep = len(all_smpls)
                 n_folds = int(n_folds_each_smpl[0])
-                smpls = _check_all_smpls(all_smpls, dml_data.n_obs, check_intersect=True)
+                # without sample splitting, training and test set of the only fold are both the full sample
+                no_sample_splitting = (n_folds == 1) & all(
+                    [_check_is_partition([(smpl[0][1], smpl[0][0])], dml_data.n_obs) for smpl in all_smpls]
+                )
+                if no_sample_splitting:
+                    smpls = all_smpls
+                else:
+                    smpls = _check_all_smpls(all_smpls, dml_data.n_obs, check_intersect=True)
             else:
                 raise ValueError("Invalid partition provided. At least one inner list does not form a partition.")
 
-- 
2.43.0


From c78de27c9a8357e5419eb7743419806b0ff86d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:54 +0000
Subject: [PATCH 31/32] fix: reject non-finite nuisance predictions under the
 nonignorable score of SSM

---
 doubleml/irm/ssm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index cd7c799..057075c 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -380,6 +380,11 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                     pi_hat["models"] = fitted_models["ml_pi"]
                     m_hat["models"] = fitted_models["ml_m"]
 
+            _check_finite_predictions(pi_hat["preds"], self._learner["ml_pi"], "ml_pi", smpls)
+            _check_finite_predictions(m_hat["preds"], self._learner["ml_m"], "ml_m", smpls)
+            _check_finite_predictions(g_hat_d1["preds"], self._learner["ml_g"], "ml_g_d1", smpls)
+            _check_finite_predictions(g_hat_d0["preds"], self._learner["ml_g"], "ml_g_d0", smpls)
+
         # outcome targets are only available in the respective selected treatment group
         g_hat_d1["targets"] = _cond_targets(g_hat_d1["targets"], cond_sample=((d == 1) & (s == 1)))
         g_hat_d0["targets"] = _cond_targets(g_hat_d0["targets"], cond_sample=((d == 0) & (s == 1)))
-- 
2.43.0


From c09627dedbb38553ff44bc5ff36fb92d91ba7d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:54 +0000
Subject: [PATCH 32/32] fix: reject non-finite outcome predictions in
 DoubleMLDIDCS

---
 doubleml/did/did_cs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doubleml/did/did_cs.py b/doubleml/did/did_cs.py
index 0fe3bcd..759d36d 100644
--- a/doubleml/did/did_cs.py
+++ b/doubleml/did/did_cs.py
@@ -246,6 +246,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
 
             g_hat_d0_t0["targets"] = g_hat_d0_t0["targets"].astype(float)
             g_hat_d0_t0["targets"][np.invert((d == 0) & (t == 0))] = np.nan
+            _check_finite_predictions(g_hat_d0_t0["preds"], self._learner["ml_g"], "ml_g", smpls)
         if external_predictions["ml_g_d0_t1"] is not None:
             g_hat_d0_t1 = {"preds": external_predictions["ml_g_d0_t1"], "targets": None, "models": None}
         else:
@@ -261,6 +262,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
             )
             g_hat_d0_t1["targets"] = g_hat_d0_t1["targets"].astype(float)
             g_hat_d0_t1["targets"][np.invert((d == 0) & (t == 1))] = np.nan
+            _check_finite_predictions(g_hat_d0_t1["preds"], self._learner["ml_g"], "ml_g", smpls)
         if external_predictions["ml_g_d1_t0"] is not None:
             g_hat_d1_t0 = {"preds": external_predictions["ml_g_d1_t0"], "targets": None, "models": None}
         else:
@@ -276,6 +278,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
             )
             g_hat_d1_t0["targets"] = g_hat_d1_t0["targets"].astype(float)
             g_hat_d1_t0["targets"][np.invert((d == 1) & (t == 0))] = np.nan
+            _check_finite_predictions(g_hat_d1_t0["preds"], self._learner["ml_g"], "ml_g", smpls)
         if external_predictions["ml_g_d1_t1"] is not None:
             g_hat_d1_t1 = {"preds": external_predictions["ml_g_d1_t1"], "targets": None, "models": None}
         else:
@@ -291,6 +294,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
             )
             g_hat_d1_t1["targets"] = g_hat_d1_t1["targets"].astype(float)
             g_hat_d1_t1["targets"][np.invert((d == 1) & (t == 1))] = np.nan
+            _check_finite_predictions(g_hat_d1_t1["preds"], self._learner["ml_g"], "ml_g", smpls)
 
         # only relevant for observational or experimental setting
         m_hat = {"preds": None, "targets": None, "models": None}
-- 
2.43.0

