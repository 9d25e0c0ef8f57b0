From d358b2507eeaf6eb54321b59edff891883b657fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 01/45] fix: keep the Jacobians, not the data, as data_effect
 of deep tree nodes

splits_to_tree passed the instances of the previous level on as their
effects, so nodes at depth >= 2 carried data instead of Jacobians.
---
 effector/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index c590a3a..7b1b14f 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -434,7 +434,7 @@ class Regions:
             # update parent_level_nodes
             parent_level_nodes = new_parent_level_nodes
             parent_level_data = new_parent_level_data
-            parent_level_data_effect = new_parent_level_data
+            parent_level_data_effect = new_parent_level_data_effect
 
         return tree
 
-- 
2.43.0


From 1abb3dfcf9179905340108de34e3d2300f747379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 02/45] fix: divide the ALE local effect by the width of its
 own bin

compute_local_effects divided every difference by the width of the first
bin, which is wrong for the uneven bins of a categorical feature.
---
 effector/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/utils.py b/effector/utils.py
index a783977..f531864 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -59,7 +59,7 @@ def compute_local_effects(
     left_lim = copy.deepcopy(data)
     right_lim[:, feature] = limits[ind]
     left_lim[:, feature] = limits[ind - 1]
-    dx = limits[1] - limits[0]
+    dx = limits[ind] - limits[ind - 1]
     data_effect = model(right_lim) - model(left_lim)
     return np.squeeze(data_effect) / dx
 
-- 
2.43.0


From e9c5a3c9642eda43cc581241dab56c38a4c9f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 03/45] fix: put points on the last bin limit into the last bin
 at any scale

The limit was moved by an absolute 1e-8, which is lost for features above
~1e8 (IndexError in ALE) and left the caller's limits modified.
---
 effector/utils.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/effector/utils.py b/effector/utils.py
index f531864..dd1a49f 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -50,8 +50,8 @@ def compute_local_effects(
     assert limits[-1] >= np.max(data[:, feature])
 
     # for each point, find the bin-index it belongs to
-    limits[-1] += EPS
-    ind = np.digitize(data[:, feature], limits)
+    # (the last bin is closed, so points on its right limit belong to it)
+    ind = np.minimum(np.digitize(data[:, feature], limits), len(limits) - 1)
     assert np.alltrue(ind > 0)
 
     # compute effect
@@ -140,13 +140,12 @@ def compute_bin_effect(
     empty_symbol = np.NaN
 
     # find bin-index of points
-    limits_enh = copy.deepcopy(limits).astype(float)
-    limits_enh[-1] += EPS
-    ind = np.digitize(xs, limits_enh)
+    # (the last bin is closed, so points on its right limit belong to it)
+    nof_bins = limits.shape[0] - 1
+    ind = np.minimum(np.digitize(xs, limits), nof_bins)
     # assert np.alltrue(ind > 0)
 
     # bin effect is the mean of all points that lie in the bin
-    nof_bins = limits.shape[0] - 1
     aggregated_effect = np.bincount(ind - 1, df_dxs, minlength=nof_bins)
     points_per_bin = np.bincount(ind - 1, minlength=nof_bins)
 
@@ -212,15 +211,13 @@ def compute_bin_variance(
     empty_symbol = np.NaN
 
     # find bin-index of points
-    eps = 1e-8
-    limits_enh = copy.deepcopy(limits).astype(float)
-    limits_enh[-1] += eps
-    ind = np.digitize(xs, limits_enh)
+    # (the last bin is closed, so points on its right limit belong to it)
+    nof_bins = limits.shape[0] - 1
+    ind = np.minimum(np.digitize(xs, limits), nof_bins)
     # assert np.alltrue(ind > 0)
 
     # variance of the effect in each bin
     variance_per_point = (df_dxs - bin_effect_mean[ind - 1]) ** 2
-    nof_bins = limits.shape[0] - 1
     aggregated_variance_per_bin = np.bincount(
         ind - 1, variance_per_point, minlength=nof_bins
     )
-- 
2.43.0


From c102df428c24013a7cc88f69ed3c35871ee52c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 04/45] fix: do not drop instances for good when fitting PDP,
 d-PDP or SHAP-DP

Fitting a feature removed the rows outside its axis limits from self.data,
so the effect of every feature fitted later depended on the call history.
---
 effector/global_effect_pdp.py  | 11 +++++------
 effector/global_effect_shap.py |  7 +++----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 36bd8fd..d79ac8c 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -41,9 +41,9 @@ class PDPBase(GlobalEffectBase):
             )
         else:
             if self.model_jac is not None:
-                y = method(self.model_jac, self.data, xx, feature, False, True, True)
+                y = method(self.model_jac, data, xx, feature, False, True, True)
             else:
-                y = method(self.model, self.data, xx, feature, False, False, True, True)
+                y = method(self.model, data, xx, feature, False, False, True, True)
         return y
 
     def _fit_feature(
@@ -55,9 +55,7 @@ class PDPBase(GlobalEffectBase):
     ) -> dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
-        data = self.data
+        data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
 
         if centering is True or centering == "zero_integral":
             xx = np.linspace(
@@ -169,7 +167,8 @@ class PDPBase(GlobalEffectBase):
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
 
         # new implementation
-        yy = self._predict(self.data, xs, feature, use_vectorized)
+        data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
+        yy = self._predict(data, xs, feature, use_vectorized)
 
         if centering:
             norm_consts = np.expand_dims(
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 0c3ceee..d36c6ee 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -102,11 +102,9 @@ class ShapDP(GlobalEffectBase):
     ) -> typing.Dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
+        data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
 
         # compute shap values
-        data = self.data
         shap_explainer = shap.Explainer(self.model, data)
         explanation = shap_explainer(data)
 
@@ -298,7 +296,8 @@ class ShapDP(GlobalEffectBase):
         )
 
         # get some SHAP values
-        _, ind = helpers.prep_nof_instances(nof_shap_values, self.data.shape[0])
+        nof_points_fitted = self.feature_effect["feature_" + str(feature)]["yy"].shape[0]
+        _, ind = helpers.prep_nof_instances(nof_shap_values, nof_points_fitted)
         yy = (
             self.feature_effect["feature_" + str(feature)]["yy"][ind]
             if heterogeneity == "shap_values"
-- 
2.43.0


From e0b9a56af5ad2aecfee839c3993b2d335d3bdc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 05/45] fix: keep the options of the last fit when eval refits
 for another centering

eval(centering=...) refitted with the default options, so asking for a
different centering silently replaced the user's binning method.
---
 effector/global_effect.py      | 6 ++++++
 effector/global_effect_ale.py  | 3 ++-
 effector/global_effect_pdp.py  | 4 +++-
 effector/global_effect_shap.py | 2 +-
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect.py b/effector/global_effect.py
index 166184c..cb4963b 100644
--- a/effector/global_effect.py
+++ b/effector/global_effect.py
@@ -119,6 +119,12 @@ class GlobalEffectBase(ABC):
                     return True
         return False
 
+    def _refit_args(self, feature):
+        """Options of the last fit (apart from centering), to be kept when refitting.
+        """
+        args = self.method_args.get("feature_" + str(feature), {})
+        return {key: value for key, value in args.items() if key != "centering"}
+
     @abstractmethod
     def eval(
         self,
diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 9bd057e..9a54b93 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -84,6 +84,7 @@ class ALEBase(GlobalEffectBase):
 
             self.is_fitted[s] = True
             self.method_args["feature_" + str(s)] = {
+                "binning_method": binning_method,
                 "centering": centering,
             }
 
@@ -138,7 +139,7 @@ class ALEBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            self.fit(features=feature, centering=centering, **self._refit_args(feature))
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index d79ac8c..2a5078a 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -161,7 +161,9 @@ class PDPBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering, use_vectorized=use_vectorized)
+            self.fit(
+                features=feature, centering=centering, use_vectorized=use_vectorized, **self._refit_args(feature)
+            )
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index d36c6ee..20e769f 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -228,7 +228,7 @@ class ShapDP(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            self.fit(features=feature, centering=centering, **self._refit_args(feature))
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
-- 
2.43.0


From d6ed9575a2bcb3fafeac72ab24e857e2b3405080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 06/45] fix: accept binning_method="dp" in RHALE.fit, as
 documented

---
 effector/global_effect_ale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 9a54b93..9c75cfb 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -548,7 +548,7 @@ class RHALE(ALEBase):
         """
         assert binning_method in [
             "greedy",
-            "dynamic",
+            "dp",
             "fixed"
         ] or isinstance(
             binning_method, bm.Greedy
-- 
2.43.0


From e366b1323f27a6711decdf8368829a2eddd89327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 07/45] fix: make HIndex and REPID work again

Both passed the removed `uncertainty` argument. The one-vs-all H-index
also compared an uncentered model output with centered partial
dependences, and REPID used a random subset of the requested instances.
---
 effector/interaction.py | 459 ++++++++++++++++++++--------------------
 1 file changed, 230 insertions(+), 229 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index cfa6e04..6b8a28b 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -1,229 +1,230 @@
-import numpy as np
-import logging
-import typing
-from effector import helpers
-import effector
-from effector import DerPDP, PDP
-from effector.global_effect_pdp import pdp_1d_vectorized, pdp_1d_non_vectorized, pdp_nd_non_vectorized, pdp_nd_vectorized
-import tqdm
-
-class HIndex:
-    """
-    H-Index interaction measure, as described in Friedman and Popescu (2008), https://arxiv.org/abs/0811.1679
-    """
-
-    empty_symbol = 1e10
-
-    def __init__(self, data, model, nof_instances=1000):
-        """
-
-        Args
-        ---
-            data (np.ndarray): The dataset, shape (nof_instances, nof_features)
-            model (function): The model to explain, takes as input data and returns predictions
-            nof_instances (int): The number of instances to use for the explanation
-        """
-        # setters
-        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
-        self.model = model
-        self.nof_features = self.data.shape[1]
-
-        # init
-        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
-        self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol
-
-        # flags
-        self.fitted_interaction_matrix = False
-        self.fitted_one_vs_all_matrix = False
-
-    def fit(self, pairwise_matrix=True, one_vs_all=True):
-        if pairwise_matrix:
-            logging.info("\nH-Index interaction matrix: Start fitting")
-            for i in range(self.nof_features):
-                print("Feature: ", i)
-                self.interaction_matrix[i, i] = 0
-                for j in range(i + 1, self.nof_features):
-                    self.eval_pairwise(i, j)
-            self.fitted_interaction_matrix = True
-            logging.info("H-Index interaction matrix: Fitting done")
-
-        if one_vs_all:
-            logging.info("\nH-Index one-vs-all matrix: Start fitting")
-            for i in range(self.nof_features):
-                print("Feature: ", i)
-                self.eval_one_vs_all(i)
-            self.fitted_one_vs_all_matrix = True
-            logging.info("H-Index one-vs-all matrix: Fitting done")
-
-    def plot(self, interaction_matrix=True, one_vs_all=True):
-        # if not fitted, fit
-        if not self.fitted_interaction_matrix and interaction_matrix:
-            self.fit(pairwise_matrix=True, one_vs_all=False)
-        if not self.fitted_one_vs_all_matrix and one_vs_all:
-            self.fit(pairwise_matrix=False, one_vs_all=True)
-
-        # plot
-        if interaction_matrix:
-            self._plot_interaction_matrix()
-        if one_vs_all:
-            self._plot_one_vs_all_matrix()
-
-    def eval_pairwise(self, feat_1, feat_2):
-        """Evaluate the interaction between feature 1 and feature 2
-
-        Args
-        ---
-            feat_1 (int): The index of feature 1
-            feat_2 (int): The index of feature 2
-
-        Returns
-        ---
-            float: The interaction between feature 1 and feature 2
-        """
-        if self.interaction_matrix[feat_1, feat_2] != self.empty_symbol:
-            return self.interaction_matrix[feat_1, feat_2]
-
-        x1 = self.data[:, feat_1]
-        x2 = self.data[:, feat_2]
-        pdp_1 = self._pdp_1d(feat_1, x1)
-        pdp_2 = self._pdp_1d(feat_2, x2)
-        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
-
-        nom = np.mean(np.square(pdp_12 - pdp_1 - pdp_2))
-        denom = np.mean(np.square(pdp_12))
-        interaction = nom / denom
-
-        self.interaction_matrix[feat_1, feat_2] = interaction
-        self.interaction_matrix[feat_2, feat_1] = interaction
-        return interaction
-
-    def eval_one_vs_all(self, feat):
-        if self.one_vs_all_matrix[feat] != self.empty_symbol:
-            return self.one_vs_all_matrix[feat]
-
-        pdp_1 = self._pdp_1d(feat, self.data[:, feat])
-        pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
-
-        yy = self.model(self.data)
-        nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
-        denom = np.mean(np.square(yy))
-        interaction = nom / denom
-
-        self.one_vs_all_matrix[feat] = interaction
-        return interaction
-
-    def _pdp_1d(self, feature, x):
-        # eval normalized pdp for feature at x
-        yy = pdp_1d_vectorized(self.model, self.data, x, feature, uncertainty=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _pdp_2d(self, feature1, feature2, x1, x2):
-        features = [feature1, feature2]
-        x = np.stack([x1, x2], axis=-1)
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _pdp_minus_1d(self, feature, x):
-        # features are all other features
-        features = [i for i in range(self.nof_features) if i != feature]
-        assert len(features) == x.shape[1]
-
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _plot_interaction_matrix(self):
-        import matplotlib.pyplot as plt
-        plt.figure(figsize=(10, 10))
-        plt.title("Interaction Matrix")
-        # assign the mean to the diagonal values w
-        mu = np.mean(self.interaction_matrix)
-        for i in range(self.nof_features):
-            self.interaction_matrix[i, i] = mu
-
-        # plot as a heatmap
-        plt.imshow(self.interaction_matrix)
-        plt.colorbar()
-        # show grid values
-        for i in range(self.nof_features):
-            for j in range(self.nof_features):
-                plt.text(j, i, round(self.interaction_matrix[i, j], 2), ha="center", va="center", color="w")
-
-        plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.show()
-
-    def _plot_one_vs_all_matrix(self):
-        import matplotlib.pyplot as plt
-        # plot as horizontal bar chart
-        plt.figure(figsize=(10, 10))
-        plt.title("H-index for all features")
-        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.xlabel("H-index")
-        plt.show()
-
-
-class REPID:
-    """REPID definition of interaction between feature x_j and all the others, i.e. the variance of the dPDP plot
-    """
-    empty_symbol = 1e10
-
-    def __init__(self, data, model, model_jac, nof_instances):
-        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
-        self.dim = self.data.shape[1]
-
-        self.model = model
-        self.model_jac = model_jac
-        self.nof_instances = nof_instances
-        self.nof_features = data.shape[1]
-
-        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
-        self.one_vs_all_matrix = np.ones(self.nof_features) * self.empty_symbol
-
-        self.fitted_interaction_matrix = False
-        self.fitted_one_vs_all_matrix = False
-
-    def fit(self, features: typing.Union[int, str, list] = "all",):
-        features = helpers.prep_features(features, self.dim)
-        for i, feat in enumerate(features):
-            print("Feature: ", feat)
-            self.eval_one_vs_all(feat)
-        self.fitted_one_vs_all_matrix = True
-
-    def eval_one_vs_all(self, feat):
-        if self.one_vs_all_matrix[feat] != self.empty_symbol:
-            return self.one_vs_all_matrix[feat]
-
-        axis_limits = effector.helpers.axis_limits_from_data(self.data)
-        pdp = PDP(self.data, self.model, axis_limits)
-        pdp.fit(feat)
-
-        # find the interaction index
-        start = axis_limits[:, feat][0]
-        stop = axis_limits[:, feat][1]
-        x = np.linspace(start, stop, 21)
-        x = 0.5 * (x[:-1] + x[1:])
-        mu, std, stderr = pdp.eval(feature=feat, xs=x, uncertainty=True, centering="zero_start") # "zero_integral")
-        interaction = np.mean(std)
-
-        # store the interaction index
-        self.one_vs_all_matrix[feat] = interaction
-        return interaction
-
-    def plot(self):
-        if self.fitted_one_vs_all_matrix is False:
-            self.fit()
-
-        import matplotlib.pyplot as plt
-        # plot as horizontal bar chart
-        plt.figure(figsize=(10, 10))
-        plt.title("REPID for all features")
-        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.xlabel("REPID index")
-        plt.show()
+import numpy as np
+import logging
+import typing
+from effector import helpers
+import effector
+from effector import DerPDP, PDP
+from effector.global_effect_pdp import pdp_1d_vectorized, pdp_1d_non_vectorized, pdp_nd_non_vectorized, pdp_nd_vectorized
+import tqdm
+
+class HIndex:
+    """
+    H-Index interaction measure, as described in Friedman and Popescu (2008), https://arxiv.org/abs/0811.1679
+    """
+
+    empty_symbol = 1e10
+
+    def __init__(self, data, model, nof_instances=1000):
+        """
+
+        Args
+        ---
+            data (np.ndarray): The dataset, shape (nof_instances, nof_features)
+            model (function): The model to explain, takes as input data and returns predictions
+            nof_instances (int): The number of instances to use for the explanation
+        """
+        # setters
+        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
+        self.data = data[self.indices]
+        self.model = model
+        self.nof_features = self.data.shape[1]
+
+        # init
+        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
+        self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol
+
+        # flags
+        self.fitted_interaction_matrix = False
+        self.fitted_one_vs_all_matrix = False
+
+    def fit(self, pairwise_matrix=True, one_vs_all=True):
+        if pairwise_matrix:
+            logging.info("\nH-Index interaction matrix: Start fitting")
+            for i in range(self.nof_features):
+                print("Feature: ", i)
+                self.interaction_matrix[i, i] = 0
+                for j in range(i + 1, self.nof_features):
+                    self.eval_pairwise(i, j)
+            self.fitted_interaction_matrix = True
+            logging.info("H-Index interaction matrix: Fitting done")
+
+        if one_vs_all:
+            logging.info("\nH-Index one-vs-all matrix: Start fitting")
+            for i in range(self.nof_features):
+                print("Feature: ", i)
+                self.eval_one_vs_all(i)
+            self.fitted_one_vs_all_matrix = True
+            logging.info("H-Index one-vs-all matrix: Fitting done")
+
+    def plot(self, interaction_matrix=True, one_vs_all=True):
+        # if not fitted, fit
+        if not self.fitted_interaction_matrix and interaction_matrix:
+            self.fit(pairwise_matrix=True, one_vs_all=False)
+        if not self.fitted_one_vs_all_matrix and one_vs_all:
+            self.fit(pairwise_matrix=False, one_vs_all=True)
+
+        # plot
+        if interaction_matrix:
+            self._plot_interaction_matrix()
+        if one_vs_all:
+            self._plot_one_vs_all_matrix()
+
+    def eval_pairwise(self, feat_1, feat_2):
+        """Evaluate the interaction between feature 1 and feature 2
+
+        Args
+        ---
+            feat_1 (int): The index of feature 1
+            feat_2 (int): The index of feature 2
+
+        Returns
+        ---
+            float: The interaction between feature 1 and feature 2
+        """
+        if self.interaction_matrix[feat_1, feat_2] != self.empty_symbol:
+            return self.interaction_matrix[feat_1, feat_2]
+
+        x1 = self.data[:, feat_1]
+        x2 = self.data[:, feat_2]
+        pdp_1 = self._pdp_1d(feat_1, x1)
+        pdp_2 = self._pdp_1d(feat_2, x2)
+        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
+
+        nom = np.mean(np.square(pdp_12 - pdp_1 - pdp_2))
+        denom = np.mean(np.square(pdp_12))
+        interaction = nom / denom
+
+        self.interaction_matrix[feat_1, feat_2] = interaction
+        self.interaction_matrix[feat_2, feat_1] = interaction
+        return interaction
+
+    def eval_one_vs_all(self, feat):
+        if self.one_vs_all_matrix[feat] != self.empty_symbol:
+            return self.one_vs_all_matrix[feat]
+
+        pdp_1 = self._pdp_1d(feat, self.data[:, feat])
+        pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
+
+        yy = self.model(self.data)
+        yy = yy - np.mean(yy)
+        nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
+        denom = np.mean(np.square(yy))
+        interaction = nom / denom
+
+        self.one_vs_all_matrix[feat] = interaction
+        return interaction
+
+    def _pdp_1d(self, feature, x):
+        # eval normalized pdp for feature at x
+        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _pdp_2d(self, feature1, feature2, x1, x2):
+        features = [feature1, feature2]
+        x = np.stack([x1, x2], axis=-1)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _pdp_minus_1d(self, feature, x):
+        # features are all other features
+        features = [i for i in range(self.nof_features) if i != feature]
+        assert len(features) == x.shape[1]
+
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _plot_interaction_matrix(self):
+        import matplotlib.pyplot as plt
+        plt.figure(figsize=(10, 10))
+        plt.title("Interaction Matrix")
+        # assign the mean to the diagonal values w
+        mu = np.mean(self.interaction_matrix)
+        for i in range(self.nof_features):
+            self.interaction_matrix[i, i] = mu
+
+        # plot as a heatmap
+        plt.imshow(self.interaction_matrix)
+        plt.colorbar()
+        # show grid values
+        for i in range(self.nof_features):
+            for j in range(self.nof_features):
+                plt.text(j, i, round(self.interaction_matrix[i, j], 2), ha="center", va="center", color="w")
+
+        plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.show()
+
+    def _plot_one_vs_all_matrix(self):
+        import matplotlib.pyplot as plt
+        # plot as horizontal bar chart
+        plt.figure(figsize=(10, 10))
+        plt.title("H-index for all features")
+        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.xlabel("H-index")
+        plt.show()
+
+
+class REPID:
+    """REPID definition of interaction between feature x_j and all the others, i.e. the variance of the dPDP plot
+    """
+    empty_symbol = 1e10
+
+    def __init__(self, data, model, model_jac, nof_instances):
+        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
+        self.data = data[self.indices]
+        self.dim = self.data.shape[1]
+
+        self.model = model
+        self.model_jac = model_jac
+        self.nof_instances = nof_instances
+        self.nof_features = data.shape[1]
+
+        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
+        self.one_vs_all_matrix = np.ones(self.nof_features) * self.empty_symbol
+
+        self.fitted_interaction_matrix = False
+        self.fitted_one_vs_all_matrix = False
+
+    def fit(self, features: typing.Union[int, str, list] = "all",):
+        features = helpers.prep_features(features, self.dim)
+        for i, feat in enumerate(features):
+            print("Feature: ", feat)
+            self.eval_one_vs_all(feat)
+        self.fitted_one_vs_all_matrix = True
+
+    def eval_one_vs_all(self, feat):
+        if self.one_vs_all_matrix[feat] != self.empty_symbol:
+            return self.one_vs_all_matrix[feat]
+
+        axis_limits = effector.helpers.axis_limits_from_data(self.data)
+        pdp = PDP(self.data, self.model, axis_limits, nof_instances="all")
+        pdp.fit(feat)
+
+        # find the interaction index
+        start = axis_limits[:, feat][0]
+        stop = axis_limits[:, feat][1]
+        x = np.linspace(start, stop, 21)
+        x = 0.5 * (x[:-1] + x[1:])
+        mu, std = pdp.eval(feature=feat, xs=x, heterogeneity=True, centering="zero_start") # "zero_integral")
+        interaction = np.mean(std)
+
+        # store the interaction index
+        self.one_vs_all_matrix[feat] = interaction
+        return interaction
+
+    def plot(self):
+        if self.fitted_one_vs_all_matrix is False:
+            self.fit()
+
+        import matplotlib.pyplot as plt
+        # plot as horizontal bar chart
+        plt.figure(figsize=(10, 10))
+        plt.title("REPID for all features")
+        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.xlabel("REPID index")
+        plt.show()
-- 
2.43.0


From e0891fe922e355427e6ee0aab44feb3574a5f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 08/45] fix: iterate over the features in pdp_nd_non_vectorized

---
 effector/global_effect_pdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 2a5078a..f5a39f8 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -617,7 +617,7 @@ def pdp_nd_non_vectorized(
         x_new = copy.deepcopy(data)
 
         # set the features of all datapoints to the values of the k-th position
-        for j, feat in features:
+        for j, feat in enumerate(features):
             x_new[:, feat] = x[k, j]
 
         # compute the prediction or the Jacobian wrt the input
-- 
2.43.0


From e48baf52c88e6e73a8b5ac13312374afe9517264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 09/45] fix: compute in double precision whatever the dtype of
 the data

With integer data, grid points and bin limits were truncated when written
into the design matrix (wrong PDP and ALE, zero numerical Jacobian); with
float32 data, the finite-difference steps were lost.
---
 effector/global_effect.py   | 2 +-
 effector/regional_effect.py | 2 +-
 effector/utils.py           | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/effector/global_effect.py b/effector/global_effect.py
index cb4963b..8537c57 100644
--- a/effector/global_effect.py
+++ b/effector/global_effect.py
@@ -60,7 +60,7 @@ class GlobalEffectBase(ABC):
         self.nof_instances, self.indices = helpers.prep_nof_instances(
             nof_instances, data.shape[0]
         )
-        data = data[self.indices, :]
+        data = data[self.indices, :].astype(float)
 
         self.data: np.ndarray = data
         self.dim = self.data.shape[1]
diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 3a549c1..7d876d9 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -42,7 +42,7 @@ class RegionalEffectBase:
         self.nof_instances, self.indices = helpers.prep_nof_instances(
             nof_instances, data.shape[0]
         )
-        self.data = data[self.indices, :]
+        self.data = data[self.indices, :].astype(float)
         self.instance_effects = data_effect[self.indices, :] if data_effect is not None else None
         self.dim = self.data.shape[1]
 
diff --git a/effector/utils.py b/effector/utils.py
index dd1a49f..0611470 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -468,6 +468,7 @@ def compute_jacobian_numerically(
 
     """
     assert data.ndim == 2
+    data = data.astype(float)
     jacobian = np.zeros_like(data)
     for f in range(data.shape[1]):
         data_plus = copy.deepcopy(data)
-- 
2.43.0


From 96abd2d25db83bf06934c9bdfb8d5766ced9ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 10/45] fix: rescale the bin-effects of ALE plots when only one
 axis is scaled

With scale_y alone the plot crashed; with scale_x alone the slopes stayed
in the original units while the bins moved to the scaled ones.
---
 effector/visualization.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 4dde363..db27ade 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -16,6 +16,10 @@ def trans_scale(x, std, square=False):
     return y
 
 
+def std_or_one(scale):
+    return 1.0 if scale is None else scale["std"]
+
+
 def trans_bin(x, std_x, std_y, square=False):
     y = x * (std_y / std_x) ** 2 if square else x * std_y / std_x
     return y
@@ -78,13 +82,13 @@ def ale_plot(
     )
     bin_variance = (
         ale_params["bin_variance"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_variance"], scale_x["std"], scale_y["std"], True)
+        if scale_x is None and scale_y is None
+        else trans_bin(ale_params["bin_variance"], std_or_one(scale_x), std_or_one(scale_y), True)
     )
     bin_effect = (
         ale_params["bin_effect"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_effect"], scale_x["std"], scale_y["std"])
+        if scale_x is None and scale_y is None
+        else trans_bin(ale_params["bin_effect"], std_or_one(scale_x), std_or_one(scale_y))
     )
 
     # PLOT
-- 
2.43.0


From 7fa390a9163bd8136a27bee633b6f3f9223bfaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 11/45] fix: allow scaled SHAP plots that do not show the SHAP
 values

---
 effector/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index db27ade..f5c6d1a 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -258,13 +258,13 @@ def plot_shap(
 
     # scale x-axis
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
-    xx = xx if scale_x is None else trans_affine(xx, scale_x["mean"], scale_x["std"])
+    xx = xx if scale_x is None or xx is None else trans_affine(xx, scale_x["mean"], scale_x["std"])
 
     # scale y-axis
     if scale_y is not None:
         y_std = trans_scale(y_std, scale_y["std"], square=False)
         y = trans_affine(y, scale_y["mean"], scale_y["std"])
-        yy = trans_affine(yy, scale_y["mean"], scale_y["std"])
+        yy = yy if yy is None else trans_affine(yy, scale_y["mean"], scale_y["std"])
         # if avg_output is not None:
         #     avg_output = trans_scale(avg_output, scale_y["std"], square=False)
 
-- 
2.43.0


From 78cb945c9202622be03b7b933b65f45c5f8d0410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 12/45] fix: do not divide by a zero heterogeneity when
 printing level statistics

---
 effector/partitioning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 7b1b14f..a1d3c6b 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -573,7 +573,9 @@ class Tree:
             if lev == 0:
                 print("    " * lev*2 + "Level %.d, heter: %.2f" % (lev, level_stats['heterogeneity']))
             else:
-                print("    " * lev*2 + "Level %.d, heter: %.2f || heter drop: %.2f (%.2f%%)" % (lev, level_stats['heterogeneity'], prev_heter - level_stats['heterogeneity'], 100*(prev_heter - level_stats['heterogeneity'])/prev_heter))
+                heter_drop = prev_heter - level_stats['heterogeneity']
+                heter_drop_pcg = 100 * heter_drop / prev_heter if prev_heter != 0 else 0.
+                print("    " * lev*2 + "Level %.d, heter: %.2f || heter drop: %.2f (%.2f%%)" % (lev, level_stats['heterogeneity'], heter_drop, heter_drop_pcg))
             prev_heter = level_stats['heterogeneity']
 
 
-- 
2.43.0


From 1d2dfdca9f1a0ece040ae7d5741b7dd416e86d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 13/45] fix: split numerical features as the node names say: <=
 and >

Instances exactly at the split position went to the node named '>';
DataTransformer sends them to '<='.
---
 effector/partitioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index a1d3c6b..fa6704f 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -312,8 +312,8 @@ class Regions:
             ind_1 = x[:, feature] == position
             ind_2 = x[:, feature] != position
         else:
-            ind_1 = x[:, feature] < position
-            ind_2 = x[:, feature] >= position
+            ind_1 = x[:, feature] <= position
+            ind_2 = x[:, feature] > position
 
         if x_jac is None:
             X1 = x[ind_1, :]
-- 
2.43.0


From 4809c85a6fc9a84aaae03367ebed4fb67f609344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 14/45] fix: look up nodes in the scaled tree only when
 plotting with scaling

After one plot with scale_x_list, every later lookup of the feature used
that scaled tree, even after the feature had been fitted again.
---
 effector/regional_effect.py     | 6 +++---
 effector/regional_effect_ale.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 7d876d9..5aa675f 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -135,11 +135,11 @@ class RegionalEffectBase:
         if not self.is_fitted[feature]:
             self.fit(feature)
 
-    def get_node_info(self, feature, node_idx):
+    def get_node_info(self, feature, node_idx, scaled=False):
         assert self.is_fitted[feature], "Feature {} has not been fitted yet".format(feature)
         assert self.tree_pruned["feature_{}".format(feature)] is not None, "Feature {} has no splits".format(feature)
 
-        if self.tree_pruned_scaled is not None and "feature_{}".format(feature) in self.tree_pruned_scaled.keys():
+        if scaled:
             tree = self.tree_pruned_scaled["feature_{}".format(feature)]
         else:
             tree = self.tree_pruned["feature_{}".format(feature)]
@@ -217,7 +217,7 @@ class RegionalEffectBase:
             self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
             self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
 
-        data, data_effect, name = self.get_node_info(feature, node_idx)
+        data, data_effect, name = self.get_node_info(feature, node_idx, scaled=scale_x_list is not None)
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
         fe_method = self._create_fe_object(data, data_effect, feature_names)
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index a101627..4fc1232 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -161,7 +161,7 @@ class RegionalRHALE(RegionalEffectBase):
             self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
             self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
 
-        data, data_effect, name = self.get_node_info(feature, node_idx)
+        data, data_effect, name = self.get_node_info(feature, node_idx, scaled=scale_x_list is not None)
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
 
@@ -309,7 +309,7 @@ class RegionalALE(RegionalEffectBase):
             self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
             self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
 
-        data, data_effect, name = self.get_node_info(feature, node_idx)
+        data, data_effect, name = self.get_node_info(feature, node_idx, scaled=scale_x_list is not None)
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
 
-- 
2.43.0


From 6222661c4ef86703709d2e586babd3f9bee0c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 15/45] fix: draw an ALE, not an RHALE, in RegionalALE.plot

Both regional plots now build their effect with _create_fe_object, so the
name of the target is also kept.
---
 effector/regional_effect_ale.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 4fc1232..eb71eef 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -167,7 +167,7 @@ class RegionalRHALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names)
+        rhale = self._create_fe_object(data, data_effect, feature_names)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
         rhale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
@@ -315,11 +315,11 @@ class RegionalALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names)
+        ale = self._create_fe_object(data, data_effect, feature_names)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
-        rhale.fit(features=feature, binning_method=binning_method, centering=centering)
+        ale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
-        rhale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
+        ale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
 
 
 def prep_binning_method(method):
-- 
2.43.0


From 877c66213be71bf84ae2234b9dc9616428738a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 16/45] fix: evaluate and plot regional PDP and SHAP effects on
 the whole subregion

The default nof_instances of the global methods took a random subset of
the instances of the node.
---
 effector/regional_effect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 5aa675f..c9e25c9 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -162,11 +162,11 @@ class RegionalEffectBase:
         elif self.method_name == "ale":
             return ALE(data, self.model, feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "shap":
-            return ShapDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return ShapDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "pdp":
-            return PDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return PDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "d-pdp":
-            return DerPDP(data, self.model, self.model_jac, feature_names=feature_names, target_name=self.target_name)
+            return DerPDP(data, self.model, self.model_jac, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From a0a56be3ba9970e8054b1553e1755d08330abb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 17/45] fix: evaluate regional (RH)ALE with the binning method
 passed to fit

plot used it, but eval fell back to the default binning.
---
 effector/regional_effect.py     |  4 ++++
 effector/regional_effect_ale.py | 14 ++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index c9e25c9..12be083 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -170,6 +170,9 @@ class RegionalEffectBase:
         else:
             raise NotImplementedError
 
+    def _fit_fe_object(self, fe_method, feature, centering):
+        """Fit the effect of a subregion with the options passed to fit; by default, there are none."""
+
     def eval(self, feature, node_idx, xs, heterogeneity=False, centering=False):
         """
         Evaluate the regional effect for a given feature and node.
@@ -197,6 +200,7 @@ class RegionalEffectBase:
         centering = helpers.prep_centering(centering)
         data, data_effect, _ = self.get_node_info(feature, node_idx)
         fe_method = self._create_fe_object(data, data_effect, None)
+        self._fit_fe_object(fe_method, feature, centering)
         return fe_method.eval(feature, xs, heterogeneity, centering)
 
     def fit(self, *args, **kwargs):
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index eb71eef..677b010 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -144,6 +144,10 @@ class RegionalRHALE(RegionalEffectBase):
                 "binning_method": binning_method,
             }
 
+    def _fit_fe_object(self, fe_method, feature, centering):
+        binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
+        fe_method.fit(features=feature, binning_method=binning_method, centering=centering)
+
     def plot(self,
              feature,
              node_idx,
@@ -168,8 +172,7 @@ class RegionalRHALE(RegionalEffectBase):
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
         rhale = self._create_fe_object(data, data_effect, feature_names)
-        binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
-        rhale.fit(features=feature, binning_method=binning_method, centering=centering)
+        self._fit_fe_object(rhale, feature, centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
         rhale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
 
@@ -292,6 +295,10 @@ class RegionalALE(RegionalEffectBase):
                 "centering": centering,
             }
 
+    def _fit_fe_object(self, fe_method, feature, centering):
+        binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
+        fe_method.fit(features=feature, binning_method=binning_method, centering=centering)
+
     def plot(self,
              feature,
              node_idx,
@@ -316,8 +323,7 @@ class RegionalALE(RegionalEffectBase):
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
         ale = self._create_fe_object(data, data_effect, feature_names)
-        binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
-        ale.fit(features=feature, binning_method=binning_method, centering=centering)
+        self._fit_fe_object(ale, feature, centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
         ale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
 
-- 
2.43.0


From 91a1e5a99b2c85be1d13155501e810f0bfa868d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 18/45] fix: allow conditioning on declared categorical
 features with many values

The search matrices had max(nof_splits, cat_limit) columns, too few when
feature_types declares a feature with more unique values as categorical.
---
 effector/partitioning.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index fa6704f..13875c6 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -149,20 +149,11 @@ class Regions:
         foc = self.foc
         nof_splits = self.nof_candidate_splits_for_numerical
         heter_func = self.heter_func
-        cat_limit = self.cat_limit
 
         data = self.data
 
         big_M = -BIG_M
 
-        # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity drop if I split foc[i] at index j
-        weighted_heter_drop = np.ones([len(foc), max(nof_splits, cat_limit)]) * big_M
-
-        # weighted_heter[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity if I split foc[i] at index j
-        weighted_heter = np.ones([len(foc), max(nof_splits, cat_limit)]) * big_M
-
         # list with len(foc) elements
         # each element is a list with the split positions for the corresponding feature of conditioning
         candidate_split_positions = [
@@ -172,6 +163,16 @@ class Regions:
             for i, foc_i in enumerate(foc)
         ]
 
+        nof_positions = max(len(positions) for positions in candidate_split_positions)
+
+        # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
+        # the accumulated heterogeneity drop if I split foc[i] at index j
+        weighted_heter_drop = np.ones([len(foc), nof_positions]) * big_M
+
+        # weighted_heter[i,j] (i index of foc and j index of split position) is
+        # the accumulated heterogeneity if I split foc[i] at index j
+        weighted_heter = np.ones([len(foc), nof_positions]) * big_M
+
         # exhaustive search on all split positions
         for i, foc_i in enumerate(foc):
             for j, position in enumerate(candidate_split_positions[i]):
-- 
2.43.0


From ad449a5a39f1974fe209687b0b667906481671ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 19/45] fix: use a BIG_M that no realistic cost, heterogeneity
 or feature reaches

With 1e8, infeasible bins and subregions were preferred for models with
large outputs, and ALE was wrong for features above 1e8.
---
 effector/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/helpers.py b/effector/helpers.py
index 872c684..d5047ed 100644
--- a/effector/helpers.py
+++ b/effector/helpers.py
@@ -2,7 +2,7 @@ import typing
 import numpy as np
 
 
-BIG_M = 1e8
+BIG_M = 1e30
 EPS = 1e-8
 EMPTY_SYMBOL = 1e8
 
-- 
2.43.0


From 22fb1992bc2c4a23eae37ac738893a3e7fc6935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 20/45] fix: report that no fixed binning exists instead of an
 IndexError

Fixed.find went on after finding that a constant feature cannot be binned.
---
 effector/bin_splitting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 4bdef24..f30d4cc 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -364,6 +364,7 @@ class Fixed(BinBase):
 
         if self._none_valid_binning():
             self.limits = False
+            return self.limits
 
         if self._is_categorical(cat_limit):
             return self.limits
-- 
2.43.0


From 3e3297f51885f51c45c6ae04dedcf60589404749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 21/45] fix: give bins without any point an infeasible cost,
 not NaN

With min_points=0, the variance of an empty bin is NaN; it poisoned the
dynamic programming, which returned limits that were not increasing.
---
 effector/bin_splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index f30d4cc..d36f301 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -49,7 +49,7 @@ class BinBase:
         )
 
         # compute cost
-        if data_effect.size < min_points:
+        if data_effect.size == 0 or data_effect.size < min_points:
             cost = self.big_M
         else:
             discount_for_more_points = 1 - discount * (data_effect.size / nof_points)
-- 
2.43.0


From 516d5ee3760c261e68255475384bacc7ed6a3321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 22/45] fix: do not take features with a large offset or a
 small range for constant

np.allclose(xs_min, xs_max) is relative to xs_max (e.g. years, timestamps)
and absolute below 1e-8; such features got a single bin.
---
 effector/bin_splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index d36f301..145450a 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -95,7 +95,7 @@ class BinBase:
         """
         min_points = self.method_args["min_points"]
         # if xs is categorical, then only one bin is possible
-        is_categorical = np.allclose(self.xs_min, self.xs_max)
+        is_categorical = self.xs_min == self.xs_max
 
         # if xs is not categorical, then one bin is possible if there are enough points only in one bin
         dy_dxs = self.data_effect[:, self.feature]
-- 
2.43.0


From e9763c7591a94cd1cc91ed68fc873f0609f5d457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 23/45] fix: measure the heterogeneity of regional PDP with the
 requested centering

fit(centering=...) centered the PDP but evaluated it uncentered.
---
 effector/regional_effect_pdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index 9bb6c93..ee67e02 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -55,7 +55,7 @@ class RegionalPDPBase(RegionalEffectBase):
 
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
             try:
-                _, z = pdp.eval(feature=foi, xs=xx, heterogeneity=True, use_vectorized=use_vectorized)
+                _, z = pdp.eval(feature=foi, xs=xx, heterogeneity=True, centering=centering, use_vectorized=use_vectorized)
             except:
                 return BIG_M
             return np.mean(z)
-- 
2.43.0


From b58b911fc0442142a1137bf9bced1bca3147a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 24/45] fix: rescale d-PDP plots as derivatives

The plot never said that it shows a derivative, so scale_y shifted it by
the mean of the target, and scale_x was ignored.
---
 effector/global_effect_pdp.py |  1 +
 effector/visualization.py     | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index f5a39f8..f2be7d0 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -257,6 +257,7 @@ class PDPBase(GlobalEffectBase):
             avg_output=avg_output,
             feature_names=self.feature_names,
             target_name=self.target_name,
+            is_derivative=self.method_name != "pdp",
             nof_ice=nof_ice,
             y_limits=y_limits,
         )
diff --git a/effector/visualization.py b/effector/visualization.py
index f5c6d1a..13c023c 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -175,13 +175,14 @@ def plot_pdp_ice(
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
 
     # scale y-axis
-    if scale_y is not None:
+    if is_derivative:
+        y_pdp_output = trans_bin(y_pdp_output, std_or_one(scale_x), std_or_one(scale_y))
+        y_ice_outputs = trans_bin(y_ice_outputs, std_or_one(scale_x), std_or_one(scale_y))
+        std_err = trans_bin(std_err, std_or_one(scale_x), std_or_one(scale_y))
+    elif scale_y is not None:
         std = trans_scale(std, scale_y["std"], square=False)
         std_err = trans_scale(std_err, scale_y["std"], square=False)
-        if is_derivative:
-            y_pdp_output = trans_scale(y_pdp_output, scale_y["std"], square=False)
-            y_ice_outputs = trans_scale(y_ice_outputs, scale_y["std"], square=False)
-        elif not is_derivative:
+        if not is_derivative:
             y_pdp_output = trans_affine(y_pdp_output, scale_y["mean"], scale_y["std"])
             y_ice_outputs = trans_affine(y_ice_outputs, scale_y["mean"], scale_y["std"])
 
-- 
2.43.0


From 4c04cb078e2522d1b415ec5122bc4dfa827562c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 25/45] fix: show the standard error, not the std, for
 heterogeneity="std_err"

---
 effector/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 13c023c..1be5250 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -169,7 +169,7 @@ def plot_pdp_ice(
 
     y_ice_outputs = yy
     std = np.std(y_ice_outputs, axis=1)
-    std_err = np.sqrt(np.var(y_ice_outputs, axis=1))
+    std_err = std / np.sqrt(y_ice_outputs.shape[1])
 
     # scale x-axis
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
-- 
2.43.0


From 45fd796560bcb1b659cc7b112b7616a905b84938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 26/45] fix: fit SHAP-DP on features with repeated values

UnivariateSpline returns NaNs when the x values repeat too often (binary,
categorical or integer features) and raises below four points.
---
 effector/global_effect_shap.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 20e769f..c24502e 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -94,6 +94,16 @@ class ShapDP(GlobalEffectBase):
             "SHAP DP", data, model, nof_instances, axis_limits, avg_output, feature_names, target_name
         )
 
+    @staticmethod
+    def _fit_spline(xx: np.ndarray, yy: np.ndarray) -> UnivariateSpline:
+        """Fit a smoothing spline; points with the same x count as their mean, which fits equally well."""
+        xx_unique, inverse, counts = np.unique(xx, return_inverse=True, return_counts=True)
+        assert len(xx_unique) > 1, "Impossible to fit a spline to a single value of the feature"
+        yy_mean = np.bincount(inverse, yy) / counts
+        return UnivariateSpline(
+            xx_unique, yy_mean, w=np.sqrt(counts), k=min(3, len(xx_unique) - 1), s=len(xx)
+        )
+
     def _fit_feature(
         self,
         feature: int,
@@ -118,11 +128,11 @@ class ShapDP(GlobalEffectBase):
         yy = yy[idx]
 
         # fit spline_mean to xx, yy pairs
-        spline_mean = UnivariateSpline(xx, yy)
+        spline_mean = self._fit_spline(xx, yy)
 
         # fit spline_mean to the sqrt of the residuals
         yy_std = np.abs(yy - spline_mean(xx))
-        spline_std = UnivariateSpline(xx, yy_std)
+        spline_std = self._fit_spline(xx, yy_std)
 
         # compute norm constant
         if centering == "zero_integral":
-- 
2.43.0


From 18c888b004ac3deadd74482c19caddaa2e4686f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 27/45] fix: never return a negative heterogeneity from SHAP-DP

---
 effector/global_effect_shap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index c24502e..1744eb7 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -250,11 +250,15 @@ class ShapDP(GlobalEffectBase):
             yy = yy - norm_const
 
         if heterogeneity:
-            yy_std = self.feature_effect["feature_" + str(feature)]["spline_std"](xs)
+            yy_std = self._eval_std(feature, xs)
             return yy, yy_std
         else:
             return yy
 
+    def _eval_std(self, feature: int, xs: np.ndarray) -> np.ndarray:
+        # the spline may undershoot, but a deviation is never negative
+        return np.maximum(self.feature_effect["feature_" + str(feature)]["spline_std"](xs), 0.0)
+
     def plot(
         self,
         feature: int,
@@ -300,7 +304,7 @@ class ShapDP(GlobalEffectBase):
         # get the SHAP curve
         y = self.eval(feature, x, heterogeneity=False, centering=centering)
         y_std = (
-            self.feature_effect["feature_" + str(feature)]["spline_std"](x)
+            self._eval_std(feature, x)
             if heterogeneity == "std" or True
             else None
         )
-- 
2.43.0


From 30f1e8b149cff48bfeee0fc766946ffe931057eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 28/45] fix: center SHAP-DP over the axis limits, as the other
 methods do

With axis_limits other than the range of the data, the zero_start curve
did not start from zero and the zero_integral one had another mean.
---
 effector/global_effect_shap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 1744eb7..d77e2bb 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -136,11 +136,12 @@ class ShapDP(GlobalEffectBase):
 
         # compute norm constant
         if centering == "zero_integral":
-            x_norm = np.linspace(xx[0], xx[-1], points_for_centering)
+            start, stop = self.axis_limits[0, feature], self.axis_limits[1, feature]
+            x_norm = np.linspace(start, stop, points_for_centering)
             y_norm = spline_mean(x_norm)
-            norm_const = np.trapz(y_norm, x_norm) / (xx[-1] - xx[0])
+            norm_const = np.trapz(y_norm, x_norm) / (stop - start)
         elif centering == "zero_start":
-            norm_const = spline_mean(xx[0])
+            norm_const = spline_mean(self.axis_limits[0, feature])
         else:
             norm_const = helpers.EMPTY_SYMBOL
 
-- 
2.43.0


From a1f9d7770956deca1ca896685d602ac500a6305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 29/45] fix: treat regions where the feature is constant as
 infeasible in regional SHAP

The other regional methods do; RegionalShapDP.fit crashed.
---
 effector/regional_effect_shap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/effector/regional_effect_shap.py b/effector/regional_effect_shap.py
index 0349659..512acc2 100644
--- a/effector/regional_effect_shap.py
+++ b/effector/regional_effect_shap.py
@@ -82,6 +82,9 @@ class RegionalShapDP(RegionalEffectBase):
                 return self.big_m
 
             axis_limits = helpers.axis_limits_from_data(data)
+            if axis_limits[0, foi] == axis_limits[1, foi]:
+                return self.big_m
+
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
 
             shap = ShapDP(data, self.model, None, self.nof_instances)
-- 
2.43.0


From fddb1db5120a4c2612ebaa5be6dc3bdb01275caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 30/45] fix: only take impossible binnings for infeasible
 regions, not every failure

A bare except in the search for subregions swallowed the errors of the
model (and KeyboardInterrupt) and went on with a wrong heterogeneity. Bins
without two points anywhere are now reported like other impossible bins.
---
 effector/regional_effect_ale.py | 4 ++--
 effector/regional_effect_pdp.py | 4 ++--
 effector/utils.py               | 1 +
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 677b010..35e1476 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -71,7 +71,7 @@ class RegionalRHALE(RegionalEffectBase):
             rhale = RHALE(data, self.model, self.model_jac, "all", None, instance_effects)
             try:
                 rhale.fit(features=foi, binning_method=binning_method, centering=centering)
-            except:
+            except AssertionError:
                 return BIG_M
 
             # heterogeneity is the accumulated std at the end of the curve
@@ -226,7 +226,7 @@ class RegionalALE(RegionalEffectBase):
             ale = ALE(data, self.model, "all", None, instance_effects)
             try:
                 ale.fit(features=foi, binning_method=binning_method, centering=centering)
-            except:
+            except AssertionError:
                 return BIG_M
 
             # heterogeneity is the accumulated std at the end of the curve
diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index ee67e02..a5766f6 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -47,7 +47,7 @@ class RegionalPDPBase(RegionalEffectBase):
 
             try:
                 pdp.fit(features=foi, centering=centering, points_for_centering=points_for_centering, use_vectorized=use_vectorized)
-            except:
+            except AssertionError:
                 return BIG_M
 
             # heterogeneity is the mean heterogeneity over the curve
@@ -56,7 +56,7 @@ class RegionalPDPBase(RegionalEffectBase):
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
             try:
                 _, z = pdp.eval(feature=foi, xs=xx, heterogeneity=True, centering=centering, use_vectorized=use_vectorized)
-            except:
+            except AssertionError:
                 return BIG_M
             return np.mean(z)
 
diff --git a/effector/utils.py b/effector/utils.py
index 0611470..11cb324 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -269,6 +269,7 @@ def fill_nans(x: np.ndarray) -> np.ndarray:
         return np.isnan(y), lambda z: z.nonzero()[0]
 
     nans, x = nan_helper(bin_effect_1)
+    assert not np.all(nans), "Too few points: no bin has a value to interpolate from"
     bin_effect_1[nans] = np.interp(x(nans), x(~nans), bin_effect_1[~nans])
     return bin_effect_1
 
-- 
2.43.0


From 79c3c622ec8749824c4d088512683b1880b2c7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 31/45] fix: do not overwrite the interaction matrix when
 plotting the H-index

---
 effector/interaction.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index 6b8a28b..2054200 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -141,17 +141,18 @@ class HIndex:
         plt.figure(figsize=(10, 10))
         plt.title("Interaction Matrix")
         # assign the mean to the diagonal values w
-        mu = np.mean(self.interaction_matrix)
+        interaction_matrix = self.interaction_matrix.copy()
+        mu = np.mean(interaction_matrix)
         for i in range(self.nof_features):
-            self.interaction_matrix[i, i] = mu
+            interaction_matrix[i, i] = mu
 
         # plot as a heatmap
-        plt.imshow(self.interaction_matrix)
+        plt.imshow(interaction_matrix)
         plt.colorbar()
         # show grid values
         for i in range(self.nof_features):
             for j in range(self.nof_features):
-                plt.text(j, i, round(self.interaction_matrix[i, j], 2), ha="center", va="center", color="w")
+                plt.text(j, i, round(interaction_matrix[i, j], 2), ha="center", va="center", color="w")
 
         plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
         plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-- 
2.43.0


From 099898f9c471246eb2e0d265cb8662a85f8780a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 32/45] fix: never choose a split position that does not exist
 when no split is feasible

---
 effector/partitioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 13875c6..281bae5 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -167,7 +167,8 @@ class Regions:
 
         # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
         # the accumulated heterogeneity drop if I split foc[i] at index j
-        weighted_heter_drop = np.ones([len(foc), nof_positions]) * big_M
+        # (-inf where there is no such position, so that it is never chosen)
+        weighted_heter_drop = np.full([len(foc), nof_positions], -np.inf)
 
         # weighted_heter[i,j] (i index of foc and j index of split position) is
         # the accumulated heterogeneity if I split foc[i] at index j
-- 
2.43.0


From 4f11847edde8aa4da91113c5c06c57af1fc97aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 33/45] fix: fit the remaining features before plotting a
 partly fitted REPID

---
 effector/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index 2054200..0dbc445 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -195,7 +195,7 @@ class REPID:
         for i, feat in enumerate(features):
             print("Feature: ", feat)
             self.eval_one_vs_all(feat)
-        self.fitted_one_vs_all_matrix = True
+        self.fitted_one_vs_all_matrix = bool(np.all(self.one_vs_all_matrix != self.empty_symbol))
 
     def eval_one_vs_all(self, feat):
         if self.one_vs_all_matrix[feat] != self.empty_symbol:
-- 
2.43.0


From af09814fb3f851bc9ba7fbfe16ee793b0cb00cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 34/45] fix: map the splits of DataTransformer to features by
 key, not by insertion order

---
 effector/partitioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 281bae5..25df033 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -588,7 +588,8 @@ class DataTransformer:
     def transform(self, X):
         # feat_mapping <- to how many features each feature is mapped
         feat_mapping = []
-        for split in self.splits.values():
+        for feat in range(X.shape[1]):
+            split = self.splits["feat_{}".format(feat)]
             if len(split) == 0:
                 feat_mapping.append(1)
             else:
-- 
2.43.0


From 4c3077c297fdb4bced7adde0d90db3704b8fa562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 35/45] fix: do not let differences of unsigned or boolean
 model outputs wrap around

---
 effector/global_effect_pdp.py | 6 +++---
 effector/utils.py             | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index f2be7d0..1580a79 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -69,7 +69,7 @@ class PDPBase(GlobalEffectBase):
         elif centering == "zero_start":
             xx = self.axis_limits[0, feature, np.newaxis]
             y = self._predict(data, xx, feature, use_vectorized)
-            fe = {"norm_const": y[0]}
+            fe = {"norm_const": np.asarray(y[0], dtype=float)}
         else:
             fe = {"norm_const": helpers.EMPTY_SYMBOL}
         return fe
@@ -471,7 +471,7 @@ def pdp_1d_non_vectorized(
             y_1 = model(x_new)
             x_new[:, feature] = x[k] - 1e-6
             y_2 = model(x_new)
-            y = (y_1 - y_2) / (2 * 1e-6)
+            y = (np.asarray(y_1, dtype=float) - y_2) / (2 * 1e-6)
             y_list.append(y)
         y = np.array(y_list)
     else:
@@ -559,7 +559,7 @@ def pdp_1d_vectorized(
 
         y_1 = model(x_new_1)
         y_2 = model(x_new_2)
-        y = (y_1 - y_2) / (2 * 1e-6)
+        y = (np.asarray(y_1, dtype=float) - y_2) / (2 * 1e-6)
         y = np.reshape(y, (x.shape[0], nof_instances))
     else:
         x_new[:, :, feature] = np.expand_dims(x, axis=-1)
diff --git a/effector/utils.py b/effector/utils.py
index 11cb324..f6fb84a 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -60,7 +60,7 @@ def compute_local_effects(
     right_lim[:, feature] = limits[ind]
     left_lim[:, feature] = limits[ind - 1]
     dx = limits[ind] - limits[ind - 1]
-    data_effect = model(right_lim) - model(left_lim)
+    data_effect = np.asarray(model(right_lim), dtype=float) - model(left_lim)
     return np.squeeze(data_effect) / dx
 
 
@@ -474,5 +474,5 @@ def compute_jacobian_numerically(
     for f in range(data.shape[1]):
         data_plus = copy.deepcopy(data)
         data_plus[:, f] += eps
-        jacobian[:, f] = (model(data_plus) - model(data)) / eps
+        jacobian[:, f] = (np.asarray(model(data_plus), dtype=float) - model(data)) / eps
     return jacobian
-- 
2.43.0


From 600b0feb8d2f02c72ca413197344d1f399a6877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 36/45] fix: let assertion errors of the model and of invalid
 arguments escape the regional search

The regional search took every AssertionError for a region whose effect cannot be computed, so that one raised
by the black box, or by an unknown centering, silently ended in 'no splits'.
---
 effector/global_effect_ale.py   | 37 ++++++++++++++++++---------------
 effector/global_effect_pdp.py   |  3 ++-
 effector/global_effect_shap.py  |  3 ++-
 effector/helpers.py             |  4 ++++
 effector/regional_effect_ale.py |  4 ++--
 effector/regional_effect_pdp.py |  4 ++--
 effector/utils.py               |  3 ++-
 7 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 9c75cfb..4e9f8f0 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -142,7 +142,8 @@ class ALEBase(GlobalEffectBase):
             self.fit(features=feature, centering=centering, **self._refit_args(feature))
 
         # Check if the lower bound is less than the upper bound
-        assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
+        if not self.axis_limits[0, feature] < self.axis_limits[1, feature]:
+            raise helpers.InfeasibleEffect("The axis limits of feature %d span no range" % (feature + 1))
 
         # Evaluate the feature
         yy = self._eval_unnorm(feature, xs, heterogeneity=heterogeneity)
@@ -327,14 +328,15 @@ class ALE(ALEBase):
         bin_name = bin_est.__class__.__name__
 
         # assert bins can be computed else raise error
-        assert bin_est.limits is not False, (
-            "Impossible to compute bins with enough points for feature "
-            + str(feature + 1)
-            + " and binning strategy: "
-            + bin_name
-            + ". Change bin strategy or "
-            "the parameters of the method"
-        )
+        if bin_est.limits is False:
+            raise helpers.InfeasibleEffect(
+                "Impossible to compute bins with enough points for feature "
+                + str(feature + 1)
+                + " and binning strategy: "
+                + bin_name
+                + ". Change bin strategy or "
+                "the parameters of the method"
+            )
 
         # compute data effect on bin limits
         data_effect = utils.compute_local_effects(
@@ -502,14 +504,15 @@ class RHALE(ALEBase):
         bin_name = bin_est.__class__.__name__
 
         # assert bins can be computed else raise error
-        assert bin_est.limits is not False, (
-            "Impossible to compute bins with enough points for feature "
-            + str(feature + 1)
-            + " and binning strategy: "
-            + bin_name
-            + ". Change bin strategy or "
-            "the parameters of the method"
-        )
+        if bin_est.limits is False:
+            raise helpers.InfeasibleEffect(
+                "Impossible to compute bins with enough points for feature "
+                + str(feature + 1)
+                + " and binning strategy: "
+                + bin_name
+                + ". Change bin strategy or "
+                "the parameters of the method"
+            )
 
         # compute the bin effect
         dale_params = utils.compute_ale_params(
diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 1580a79..1b182e6 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -166,7 +166,8 @@ class PDPBase(GlobalEffectBase):
             )
 
         # Check if the lower bound is less than the upper bound
-        assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
+        if not self.axis_limits[0, feature] < self.axis_limits[1, feature]:
+            raise helpers.InfeasibleEffect("The axis limits of feature %d span no range" % (feature + 1))
 
         # new implementation
         data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index d77e2bb..cdc2294 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -242,7 +242,8 @@ class ShapDP(GlobalEffectBase):
             self.fit(features=feature, centering=centering, **self._refit_args(feature))
 
         # Check if the lower bound is less than the upper bound
-        assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
+        if not self.axis_limits[0, feature] < self.axis_limits[1, feature]:
+            raise helpers.InfeasibleEffect("The axis limits of feature %d span no range" % (feature + 1))
 
         yy = self.feature_effect["feature_" + str(feature)]["spline_mean"](xs)
 
diff --git a/effector/helpers.py b/effector/helpers.py
index d5047ed..e9b1742 100644
--- a/effector/helpers.py
+++ b/effector/helpers.py
@@ -7,6 +7,10 @@ EPS = 1e-8
 EMPTY_SYMBOL = 1e8
 
 
+class InfeasibleEffect(AssertionError):
+    """The effect cannot be computed on these instances, e.g., because of too few points or a constant feature"""
+
+
 def prep_features(feat: typing.Union[str, list], D) -> list:
     assert type(feat) in [list, str, int]
     if feat == "all":
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 35e1476..3ef887a 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -71,7 +71,7 @@ class RegionalRHALE(RegionalEffectBase):
             rhale = RHALE(data, self.model, self.model_jac, "all", None, instance_effects)
             try:
                 rhale.fit(features=foi, binning_method=binning_method, centering=centering)
-            except AssertionError:
+            except helpers.InfeasibleEffect:
                 return BIG_M
 
             # heterogeneity is the accumulated std at the end of the curve
@@ -226,7 +226,7 @@ class RegionalALE(RegionalEffectBase):
             ale = ALE(data, self.model, "all", None, instance_effects)
             try:
                 ale.fit(features=foi, binning_method=binning_method, centering=centering)
-            except AssertionError:
+            except helpers.InfeasibleEffect:
                 return BIG_M
 
             # heterogeneity is the accumulated std at the end of the curve
diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index a5766f6..e9d8517 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -47,7 +47,7 @@ class RegionalPDPBase(RegionalEffectBase):
 
             try:
                 pdp.fit(features=foi, centering=centering, points_for_centering=points_for_centering, use_vectorized=use_vectorized)
-            except AssertionError:
+            except helpers.InfeasibleEffect:
                 return BIG_M
 
             # heterogeneity is the mean heterogeneity over the curve
@@ -56,7 +56,7 @@ class RegionalPDPBase(RegionalEffectBase):
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
             try:
                 _, z = pdp.eval(feature=foi, xs=xx, heterogeneity=True, centering=centering, use_vectorized=use_vectorized)
-            except AssertionError:
+            except helpers.InfeasibleEffect:
                 return BIG_M
             return np.mean(z)
 
diff --git a/effector/utils.py b/effector/utils.py
index f6fb84a..6ab0447 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -269,7 +269,8 @@ def fill_nans(x: np.ndarray) -> np.ndarray:
         return np.isnan(y), lambda z: z.nonzero()[0]
 
     nans, x = nan_helper(bin_effect_1)
-    assert not np.all(nans), "Too few points: no bin has a value to interpolate from"
+    if np.all(nans):
+        raise helpers.InfeasibleEffect("Too few points: no bin has a value to interpolate from")
     bin_effect_1[nans] = np.interp(x(nans), x(~nans), bin_effect_1[~nans])
     return bin_effect_1
 
-- 
2.43.0


From 94fb455e9b8eac24cabd75fa1a8a0a04ab8cf891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 37/45] fix: refuse data that is not two-dimensional in
 regional methods

---
 effector/regional_effect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 12be083..8ee61bb 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -34,6 +34,8 @@ class RegionalEffectBase:
         """
         Constructor for the RegionalEffect class.
         """
+        assert data.ndim == 2
+
         self.method_name = method_name.lower()
         self.model = model
         self.model_jac = model_jac
-- 
2.43.0


From 23afc7ac13a5e7ff8991001c0055cf30c99d4acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 38/45] fix: let no cost of a feasible bin reach the cost of an
 infeasible one

Costs are squared slopes times a width, which exceed 1e30 for features or outputs in small units.
---
 effector/bin_splitting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 145450a..c6ecf81 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -2,12 +2,11 @@ import typing
 
 import numpy as np
 import effector.utils as utils
-import effector.helpers as helpers
 import matplotlib.pyplot as plt
 
 
 class BinBase:
-    big_M = helpers.BIG_M
+    big_M = np.inf  # cost of an infeasible bin; larger than the cost of any feasible one
 
     def __init__(self,
                  feature: int,
-- 
2.43.0


From c43a0c310f1ac383337cb81338eadd1b4a1e0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:42 +0000
Subject: [PATCH 39/45] fix: keep ALE curves constant right of the axis at any
 scale of the feature

---
 effector/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/utils.py b/effector/utils.py
index 6ab0447..f8d7e4b 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -351,7 +351,7 @@ def compute_accumulated_effect(
     full_bin_effect = tmp[ind]
 
     # for each point, find the remaining effect
-    tmp = np.concatenate([[limits[0]], limits[:-1], [BIG_M]])
+    tmp = np.concatenate([[limits[0]], limits[:-1], [np.inf]])
     deltas = x - tmp[ind]
     deltas[deltas < 0] = 0  # if xs < left_limit => delta = 0
     deltas = deltas**2 if square else deltas
-- 
2.43.0


From 999d7965d1fd611b5916675ef79bc735aae1cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 40/45] fix: restore the CRLF line endings of interaction.py

---
 effector/interaction.py | 462 ++++++++++++++++++++--------------------
 1 file changed, 231 insertions(+), 231 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index 0dbc445..82a0bfa 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -1,231 +1,231 @@
-import numpy as np
-import logging
-import typing
-from effector import helpers
-import effector
-from effector import DerPDP, PDP
-from effector.global_effect_pdp import pdp_1d_vectorized, pdp_1d_non_vectorized, pdp_nd_non_vectorized, pdp_nd_vectorized
-import tqdm
-
-class HIndex:
-    """
-    H-Index interaction measure, as described in Friedman and Popescu (2008), https://arxiv.org/abs/0811.1679
-    """
-
-    empty_symbol = 1e10
-
-    def __init__(self, data, model, nof_instances=1000):
-        """
-
-        Args
-        ---
-            data (np.ndarray): The dataset, shape (nof_instances, nof_features)
-            model (function): The model to explain, takes as input data and returns predictions
-            nof_instances (int): The number of instances to use for the explanation
-        """
-        # setters
-        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
-        self.model = model
-        self.nof_features = self.data.shape[1]
-
-        # init
-        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
-        self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol
-
-        # flags
-        self.fitted_interaction_matrix = False
-        self.fitted_one_vs_all_matrix = False
-
-    def fit(self, pairwise_matrix=True, one_vs_all=True):
-        if pairwise_matrix:
-            logging.info("\nH-Index interaction matrix: Start fitting")
-            for i in range(self.nof_features):
-                print("Feature: ", i)
-                self.interaction_matrix[i, i] = 0
-                for j in range(i + 1, self.nof_features):
-                    self.eval_pairwise(i, j)
-            self.fitted_interaction_matrix = True
-            logging.info("H-Index interaction matrix: Fitting done")
-
-        if one_vs_all:
-            logging.info("\nH-Index one-vs-all matrix: Start fitting")
-            for i in range(self.nof_features):
-                print("Feature: ", i)
-                self.eval_one_vs_all(i)
-            self.fitted_one_vs_all_matrix = True
-            logging.info("H-Index one-vs-all matrix: Fitting done")
-
-    def plot(self, interaction_matrix=True, one_vs_all=True):
-        # if not fitted, fit
-        if not self.fitted_interaction_matrix and interaction_matrix:
-            self.fit(pairwise_matrix=True, one_vs_all=False)
-        if not self.fitted_one_vs_all_matrix and one_vs_all:
-            self.fit(pairwise_matrix=False, one_vs_all=True)
-
-        # plot
-        if interaction_matrix:
-            self._plot_interaction_matrix()
-        if one_vs_all:
-            self._plot_one_vs_all_matrix()
-
-    def eval_pairwise(self, feat_1, feat_2):
-        """Evaluate the interaction between feature 1 and feature 2
-
-        Args
-        ---
-            feat_1 (int): The index of feature 1
-            feat_2 (int): The index of feature 2
-
-        Returns
-        ---
-            float: The interaction between feature 1 and feature 2
-        """
-        if self.interaction_matrix[feat_1, feat_2] != self.empty_symbol:
-            return self.interaction_matrix[feat_1, feat_2]
-
-        x1 = self.data[:, feat_1]
-        x2 = self.data[:, feat_2]
-        pdp_1 = self._pdp_1d(feat_1, x1)
-        pdp_2 = self._pdp_1d(feat_2, x2)
-        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
-
-        nom = np.mean(np.square(pdp_12 - pdp_1 - pdp_2))
-        denom = np.mean(np.square(pdp_12))
-        interaction = nom / denom
-
-        self.interaction_matrix[feat_1, feat_2] = interaction
-        self.interaction_matrix[feat_2, feat_1] = interaction
-        return interaction
-
-    def eval_one_vs_all(self, feat):
-        if self.one_vs_all_matrix[feat] != self.empty_symbol:
-            return self.one_vs_all_matrix[feat]
-
-        pdp_1 = self._pdp_1d(feat, self.data[:, feat])
-        pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
-
-        yy = self.model(self.data)
-        yy = yy - np.mean(yy)
-        nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
-        denom = np.mean(np.square(yy))
-        interaction = nom / denom
-
-        self.one_vs_all_matrix[feat] = interaction
-        return interaction
-
-    def _pdp_1d(self, feature, x):
-        # eval normalized pdp for feature at x
-        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _pdp_2d(self, feature1, feature2, x1, x2):
-        features = [feature1, feature2]
-        x = np.stack([x1, x2], axis=-1)
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _pdp_minus_1d(self, feature, x):
-        # features are all other features
-        features = [i for i in range(self.nof_features) if i != feature]
-        assert len(features) == x.shape[1]
-
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _plot_interaction_matrix(self):
-        import matplotlib.pyplot as plt
-        plt.figure(figsize=(10, 10))
-        plt.title("Interaction Matrix")
-        # assign the mean to the diagonal values w
-        interaction_matrix = self.interaction_matrix.copy()
-        mu = np.mean(interaction_matrix)
-        for i in range(self.nof_features):
-            interaction_matrix[i, i] = mu
-
-        # plot as a heatmap
-        plt.imshow(interaction_matrix)
-        plt.colorbar()
-        # show grid values
-        for i in range(self.nof_features):
-            for j in range(self.nof_features):
-                plt.text(j, i, round(interaction_matrix[i, j], 2), ha="center", va="center", color="w")
-
-        plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.show()
-
-    def _plot_one_vs_all_matrix(self):
-        import matplotlib.pyplot as plt
-        # plot as horizontal bar chart
-        plt.figure(figsize=(10, 10))
-        plt.title("H-index for all features")
-        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.xlabel("H-index")
-        plt.show()
-
-
-class REPID:
-    """REPID definition of interaction between feature x_j and all the others, i.e. the variance of the dPDP plot
-    """
-    empty_symbol = 1e10
-
-    def __init__(self, data, model, model_jac, nof_instances):
-        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
-        self.dim = self.data.shape[1]
-
-        self.model = model
-        self.model_jac = model_jac
-        self.nof_instances = nof_instances
-        self.nof_features = data.shape[1]
-
-        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
-        self.one_vs_all_matrix = np.ones(self.nof_features) * self.empty_symbol
-
-        self.fitted_interaction_matrix = False
-        self.fitted_one_vs_all_matrix = False
-
-    def fit(self, features: typing.Union[int, str, list] = "all",):
-        features = helpers.prep_features(features, self.dim)
-        for i, feat in enumerate(features):
-            print("Feature: ", feat)
-            self.eval_one_vs_all(feat)
-        self.fitted_one_vs_all_matrix = bool(np.all(self.one_vs_all_matrix != self.empty_symbol))
-
-    def eval_one_vs_all(self, feat):
-        if self.one_vs_all_matrix[feat] != self.empty_symbol:
-            return self.one_vs_all_matrix[feat]
-
-        axis_limits = effector.helpers.axis_limits_from_data(self.data)
-        pdp = PDP(self.data, self.model, axis_limits, nof_instances="all")
-        pdp.fit(feat)
-
-        # find the interaction index
-        start = axis_limits[:, feat][0]
-        stop = axis_limits[:, feat][1]
-        x = np.linspace(start, stop, 21)
-        x = 0.5 * (x[:-1] + x[1:])
-        mu, std = pdp.eval(feature=feat, xs=x, heterogeneity=True, centering="zero_start") # "zero_integral")
-        interaction = np.mean(std)
-
-        # store the interaction index
-        self.one_vs_all_matrix[feat] = interaction
-        return interaction
-
-    def plot(self):
-        if self.fitted_one_vs_all_matrix is False:
-            self.fit()
-
-        import matplotlib.pyplot as plt
-        # plot as horizontal bar chart
-        plt.figure(figsize=(10, 10))
-        plt.title("REPID for all features")
-        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.xlabel("REPID index")
-        plt.show()
+import numpy as np
+import logging
+import typing
+from effector import helpers
+import effector
+from effector import DerPDP, PDP
+from effector.global_effect_pdp import pdp_1d_vectorized, pdp_1d_non_vectorized, pdp_nd_non_vectorized, pdp_nd_vectorized
+import tqdm
+
+class HIndex:
+    """
+    H-Index interaction measure, as described in Friedman and Popescu (2008), https://arxiv.org/abs/0811.1679
+    """
+
+    empty_symbol = 1e10
+
+    def __init__(self, data, model, nof_instances=1000):
+        """
+
+        Args
+        ---
+            data (np.ndarray): The dataset, shape (nof_instances, nof_features)
+            model (function): The model to explain, takes as input data and returns predictions
+            nof_instances (int): The number of instances to use for the explanation
+        """
+        # setters
+        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
+        self.data = data[self.indices]
+        self.model = model
+        self.nof_features = self.data.shape[1]
+
+        # init
+        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
+        self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol
+
+        # flags
+        self.fitted_interaction_matrix = False
+        self.fitted_one_vs_all_matrix = False
+
+    def fit(self, pairwise_matrix=True, one_vs_all=True):
+        if pairwise_matrix:
+            logging.info("\nH-Index interaction matrix: Start fitting")
+            for i in range(self.nof_features):
+                print("Feature: ", i)
+                self.interaction_matrix[i, i] = 0
+                for j in range(i + 1, self.nof_features):
+                    self.eval_pairwise(i, j)
+            self.fitted_interaction_matrix = True
+            logging.info("H-Index interaction matrix: Fitting done")
+
+        if one_vs_all:
+            logging.info("\nH-Index one-vs-all matrix: Start fitting")
+            for i in range(self.nof_features):
+                print("Feature: ", i)
+                self.eval_one_vs_all(i)
+            self.fitted_one_vs_all_matrix = True
+            logging.info("H-Index one-vs-all matrix: Fitting done")
+
+    def plot(self, interaction_matrix=True, one_vs_all=True):
+        # if not fitted, fit
+        if not self.fitted_interaction_matrix and interaction_matrix:
+            self.fit(pairwise_matrix=True, one_vs_all=False)
+        if not self.fitted_one_vs_all_matrix and one_vs_all:
+            self.fit(pairwise_matrix=False, one_vs_all=True)
+
+        # plot
+        if interaction_matrix:
+            self._plot_interaction_matrix()
+        if one_vs_all:
+            self._plot_one_vs_all_matrix()
+
+    def eval_pairwise(self, feat_1, feat_2):
+        """Evaluate the interaction between feature 1 and feature 2
+
+        Args
+        ---
+            feat_1 (int): The index of feature 1
+            feat_2 (int): The index of feature 2
+
+        Returns
+        ---
+            float: The interaction between feature 1 and feature 2
+        """
+        if self.interaction_matrix[feat_1, feat_2] != self.empty_symbol:
+            return self.interaction_matrix[feat_1, feat_2]
+
+        x1 = self.data[:, feat_1]
+        x2 = self.data[:, feat_2]
+        pdp_1 = self._pdp_1d(feat_1, x1)
+        pdp_2 = self._pdp_1d(feat_2, x2)
+        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
+
+        nom = np.mean(np.square(pdp_12 - pdp_1 - pdp_2))
+        denom = np.mean(np.square(pdp_12))
+        interaction = nom / denom
+
+        self.interaction_matrix[feat_1, feat_2] = interaction
+        self.interaction_matrix[feat_2, feat_1] = interaction
+        return interaction
+
+    def eval_one_vs_all(self, feat):
+        if self.one_vs_all_matrix[feat] != self.empty_symbol:
+            return self.one_vs_all_matrix[feat]
+
+        pdp_1 = self._pdp_1d(feat, self.data[:, feat])
+        pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
+
+        yy = self.model(self.data)
+        yy = yy - np.mean(yy)
+        nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
+        denom = np.mean(np.square(yy))
+        interaction = nom / denom
+
+        self.one_vs_all_matrix[feat] = interaction
+        return interaction
+
+    def _pdp_1d(self, feature, x):
+        # eval normalized pdp for feature at x
+        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _pdp_2d(self, feature1, feature2, x1, x2):
+        features = [feature1, feature2]
+        x = np.stack([x1, x2], axis=-1)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _pdp_minus_1d(self, feature, x):
+        # features are all other features
+        features = [i for i in range(self.nof_features) if i != feature]
+        assert len(features) == x.shape[1]
+
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _plot_interaction_matrix(self):
+        import matplotlib.pyplot as plt
+        plt.figure(figsize=(10, 10))
+        plt.title("Interaction Matrix")
+        # assign the mean to the diagonal values w
+        interaction_matrix = self.interaction_matrix.copy()
+        mu = np.mean(interaction_matrix)
+        for i in range(self.nof_features):
+            interaction_matrix[i, i] = mu
+
+        # plot as a heatmap
+        plt.imshow(interaction_matrix)
+        plt.colorbar()
+        # show grid values
+        for i in range(self.nof_features):
+            for j in range(self.nof_features):
+                plt.text(j, i, round(interaction_matrix[i, j], 2), ha="center", va="center", color="w")
+
+        plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.show()
+
+    def _plot_one_vs_all_matrix(self):
+        import matplotlib.pyplot as plt
+        # plot as horizontal bar chart
+        plt.figure(figsize=(10, 10))
+        plt.title("H-index for all features")
+        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.xlabel("H-index")
+        plt.show()
+
+
+class REPID:
+    """REPID definition of interaction between feature x_j and all the others, i.e. the variance of the dPDP plot
+    """
+    empty_symbol = 1e10
+
+    def __init__(self, data, model, model_jac, nof_instances):
+        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
+        self.data = data[self.indices]
+        self.dim = self.data.shape[1]
+
+        self.model = model
+        self.model_jac = model_jac
+        self.nof_instances = nof_instances
+        self.nof_features = data.shape[1]
+
+        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
+        self.one_vs_all_matrix = np.ones(self.nof_features) * self.empty_symbol
+
+        self.fitted_interaction_matrix = False
+        self.fitted_one_vs_all_matrix = False
+
+    def fit(self, features: typing.Union[int, str, list] = "all",):
+        features = helpers.prep_features(features, self.dim)
+        for i, feat in enumerate(features):
+            print("Feature: ", feat)
+            self.eval_one_vs_all(feat)
+        self.fitted_one_vs_all_matrix = bool(np.all(self.one_vs_all_matrix != self.empty_symbol))
+
+    def eval_one_vs_all(self, feat):
+        if self.one_vs_all_matrix[feat] != self.empty_symbol:
+            return self.one_vs_all_matrix[feat]
+
+        axis_limits = effector.helpers.axis_limits_from_data(self.data)
+        pdp = PDP(self.data, self.model, axis_limits, nof_instances="all")
+        pdp.fit(feat)
+
+        # find the interaction index
+        start = axis_limits[:, feat][0]
+        stop = axis_limits[:, feat][1]
+        x = np.linspace(start, stop, 21)
+        x = 0.5 * (x[:-1] + x[1:])
+        mu, std = pdp.eval(feature=feat, xs=x, heterogeneity=True, centering="zero_start") # "zero_integral")
+        interaction = np.mean(std)
+
+        # store the interaction index
+        self.one_vs_all_matrix[feat] = interaction
+        return interaction
+
+    def plot(self):
+        if self.fitted_one_vs_all_matrix is False:
+            self.fit()
+
+        import matplotlib.pyplot as plt
+        # plot as horizontal bar chart
+        plt.figure(figsize=(10, 10))
+        plt.title("REPID for all features")
+        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.xlabel("REPID index")
+        plt.show()
-- 
2.43.0


From fca76658f1ba20b14e0a1b75c443230c17113b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:55 +0000
Subject: [PATCH 41/45] fix: default axis labels name the feature as documented
 (x_0, x_1, ...)

---
 effector/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 1be5250..f5a8854 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -108,7 +108,7 @@ def ale_plot(
 
     ax1.set_ylim(y_limits[0], y_limits[1]) if y_limits is not None else None
 
-    x_name = "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+    x_name = "x_%d" % feature if feature_names is None else feature_names[feature]
     ax2.set_xlabel(x_name)
     ax2.set_ylabel("dy/dx")
 
@@ -223,7 +223,7 @@ def plot_pdp_ice(
         ax.axhline(y=avg_output, color="black", linestyle="--", label="avg output")
 
     feature_name = (
-        "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+        "x_%d" % feature if feature_names is None else feature_names[feature]
     )
     ax.set_xlabel(feature_name)
     if is_derivative:
@@ -289,7 +289,7 @@ def plot_shap(
         ax.axhline(y=avg_output, color="black", linestyle="--", label="avg output")
 
     feature_name = (
-        "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+        "x_%d" % feature if feature_names is None else feature_names[feature]
     )
     ax.set_xlabel(feature_name)
     ax.set_ylabel("y") if target_name is None else ax.set_ylabel(target_name)
-- 
2.43.0


From b79011608aa8286f20301bfdc9c28627f4ffa25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:24 +0000
Subject: [PATCH 42/45] fix: compute in double precision whatever the dtype of
 axis limits and derivatives

---
 effector/global_effect.py     | 2 +-
 effector/global_effect_ale.py | 2 +-
 effector/regional_effect.py   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/effector/global_effect.py b/effector/global_effect.py
index 8537c57..0a6fdf8 100644
--- a/effector/global_effect.py
+++ b/effector/global_effect.py
@@ -72,7 +72,7 @@ class GlobalEffectBase(ABC):
         )
 
         axis_limits = (
-            helpers.axis_limits_from_data(data) if axis_limits is None else axis_limits
+            helpers.axis_limits_from_data(data) if axis_limits is None else axis_limits.astype(float)
         )
         self.axis_limits: np.ndarray = axis_limits
 
diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 4e9f8f0..f6dd740 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -467,7 +467,7 @@ class RHALE(ALEBase):
         nof_instances, indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
         data = data[indices, :]
         data_effect = data_effect[indices, :] if data_effect is not None else None
-        self.data_effect = data_effect
+        self.data_effect = data_effect.astype(float) if data_effect is not None else None
 
         super(RHALE, self).__init__(
             data, model, "all", axis_limits, avg_output, feature_names, target_name, "RHALE"
diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 8ee61bb..a0093e0 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -45,12 +45,12 @@ class RegionalEffectBase:
             nof_instances, data.shape[0]
         )
         self.data = data[self.indices, :].astype(float)
-        self.instance_effects = data_effect[self.indices, :] if data_effect is not None else None
+        self.instance_effects = data_effect[self.indices, :].astype(float) if data_effect is not None else None
         self.dim = self.data.shape[1]
 
         # set axis_limits
         axis_limits = (
-            helpers.axis_limits_from_data(data) if axis_limits is None else axis_limits
+            helpers.axis_limits_from_data(data) if axis_limits is None else axis_limits.astype(float)
         )
         self.axis_limits: np.ndarray = axis_limits
 
-- 
2.43.0


From 4ab2b42de70829ca7ad9085f9cafb8c8c5e1eac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:04 +0000
Subject: [PATCH 43/45] fix: answer 0 for the pairwise H-index of a feature
 with itself, fitted or not

---
 effector/interaction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/effector/interaction.py b/effector/interaction.py
index 82a0bfa..3f2dfb8 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -81,6 +81,10 @@ class HIndex:
         ---
             float: The interaction between feature 1 and feature 2
         """
+        if feat_1 == feat_2:
+            # as the diagonal of the interaction matrix
+            return 0.0
+
         if self.interaction_matrix[feat_1, feat_2] != self.empty_symbol:
             return self.interaction_matrix[feat_1, feat_2]
 
-- 
2.43.0


From d216e9e95cd0118c061c1f4bc7c17aed29117167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:04 +0000
Subject: [PATCH 44/45] fix: report a drop of 0 percent when the heterogeneity
 before the split is zero

---
 effector/regional_effect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index a0093e0..b0f6500 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -315,8 +315,9 @@ class RegionalEffectBase:
                 weight_heter = np.sum([node.data["weight"] * node.data["heterogeneity"] for node in level_nodes])
                 print("  - Heterogeneity after split: {:.2f}".format(weight_heter))
                 weight_heter_drop = weight_heter_before - weight_heter
+                weight_heter_drop_pcg = weight_heter_drop / weight_heter_before * 100 if weight_heter_before != 0 else 0.
                 print("  - Heterogeneity drop: {:.2f} ({:.2f} %)".format(
-                    weight_heter_drop, weight_heter_drop / weight_heter_before * 100)
+                    weight_heter_drop, weight_heter_drop_pcg)
                 )
 
                 nof_instances_before = [nod.data["nof_instances"] for nod in previous_level_nodes]
-- 
2.43.0


From e73f8d13364ee201ec0f8b50100ceccbc32e8fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:11 +0000
Subject: [PATCH 45/45] fix: non-vectorized numerical d-PDP was 0 for a model
 that returns a view of its input

y_1 was a view of x_new, which is overwritten before the second call.
---
 effector/global_effect_pdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 1b182e6..fa4e2f6 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -469,10 +469,10 @@ def pdp_1d_non_vectorized(
         for k in range(nof_instances):
             x_new = copy.deepcopy(data)
             x_new[:, feature] = x[k] + 1e-6
-            y_1 = model(x_new)
+            y_1 = np.array(model(x_new), dtype=float)  # a copy, as it may be a view of x_new
             x_new[:, feature] = x[k] - 1e-6
             y_2 = model(x_new)
-            y = (np.asarray(y_1, dtype=float) - y_2) / (2 * 1e-6)
+            y = (y_1 - y_2) / (2 * 1e-6)
             y_list.append(y)
         y = np.array(y_list)
     else:
-- 
2.43.0

