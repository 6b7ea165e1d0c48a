From fcab37a3b0036101eef1cb6e516b8d59d460675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:20 +0000
Subject: [PATCH 001/110] fix: do not overwrite the caller's target labels when
 masking them

---
 skada/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index b5d1f7e..1a0229e 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -351,6 +351,8 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         if y is not None and routed_params.get('sample_domain') is not None:
             y_type = _find_y_type(y)
             source_idx = extract_source_indices(routed_params['sample_domain'])
+            # mask a copy, the labels given by the caller should stay intact
+            y = np.array(y)
             if y_type == Y_Type.DISCRETE:
                 y[~source_idx] = _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL
             elif y_type == Y_Type.CONTINUOUS:
-- 
2.43.0


From 88542185c8f89e85166350e6113ac4a5aa67a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:20 +0000
Subject: [PATCH 002/110] fix: count target domains when checking
 allow_multi_target

---
 skada/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 12b285d..6def96f 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -114,7 +114,7 @@ def check_X_y_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
 
@@ -217,7 +217,7 @@ def check_X_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
     
-- 
2.43.0


From b7f7855f48232c91183b9294e7be0a46efbdf952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 003/110] fix: check the length of sample_domain and accept
 array-likes in the validators

---
 skada/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skada/utils.py b/skada/utils.py
index 6def96f..53f23e0 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -98,7 +98,9 @@ def check_X_y_domain(
     if np.isscalar(sample_domain):
         sample_domain = sample_domain*np.ones_like(y)
 
+    sample_domain = np.asarray(sample_domain)
     source_idx = extract_source_indices(sample_domain)
+    check_consistent_length(X, sample_domain)
 
     # xxx(okachaiev): this needs to be re-written to accommodate for a
     # a new domain labeling convention without "intersections"
@@ -195,6 +197,7 @@ def check_X_domain(
     if np.isscalar(sample_domain):
         sample_domain = sample_domain * np.ones(X.shape[0], dtype=np.int32)
 
+    sample_domain = np.asarray(sample_domain)
     source_idx = extract_source_indices(sample_domain)
     check_consistent_length(X, sample_domain)
 
-- 
2.43.0


From e11f79d57d61cc01520a7ca3d442dbe5a2d646de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 004/110] fix: keep values and types when merging source and
 target arrays of different dtypes

---
 skada/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 53f23e0..c3906fb 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -529,9 +529,10 @@ def source_target_merge(
                 elif y_type == Y_Type.CONTINUOUS:
                     default_masked_label = _DEFAULT_MASKED_TARGET_REGRESSION_LABEL
 
-                arrays[index_is_empty] = (
-                    default_masked_label *
-                    np.ones(shape_to_complete)
+                arrays[index_is_empty] = np.full(
+                    shape_to_complete,
+                    default_masked_label,
+                    dtype=np.result_type(arrays[pair_index].dtype, np.int8),
                 )
 
         # Check consistent number of samples in source-target arrays
@@ -584,9 +585,8 @@ def _merge_arrays(
         (n_samples_source + n_samples_target, n_features)
     """
     if array_source.shape[0] > 0 and array_target.shape[0] > 0:
-        output = np.zeros_like(
-            np.concatenate((array_source, array_target)), dtype=array_source.dtype
-        )
+        # `concatenate` promotes to a type that can hold both source and target
+        output = np.zeros_like(np.concatenate((array_source, array_target)))
         output[sample_domain >= 0] = array_source
         output[sample_domain < 0] = array_target
 
-- 
2.43.0


From 3110fa919c938caf16563656f93254b15c25effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 005/110] fix: report an unknown default_selector name with the
 intended ValueError

---
 skada/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_pipeline.py b/skada/_pipeline.py
index 72305ff..c2a1704 100644
--- a/skada/_pipeline.py
+++ b/skada/_pipeline.py
@@ -127,7 +127,7 @@ def _wrap_with_selector(
             if selector_cls is None:
                 raise ValueError(
                     f"Unsupported `default_selector` name: {selector}."
-                    f"Use one of {_DEFAULT_SELECTORS.keys().join(', ')}"
+                    f"Use one of {', '.join(_DEFAULT_SELECTORS)}"
                 )
             estimator = selector_cls(estimator, mask_target_labels=mask_target_labels)
         else:
-- 
2.43.0


From 26f13d0d429f87d19c2c3bddec411ec789bcc4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 006/110] fix: keep mask_target_labels and the final step mark
 when cloning selectors

---
 skada/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index 1a0229e..046ba25 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -279,6 +279,15 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         self.base_estimator.set_params(**kwargs)
         return self
 
+    def __sklearn_clone__(self):
+        selector = super().__sklearn_clone__()
+        # those settings are not a part of the parameters (that belong to the
+        # base estimator), so they have to be carried over explicitly
+        for name in ('mask_target_labels', '_is_final'):
+            if hasattr(self, name):
+                setattr(selector, name, getattr(self, name))
+        return selector
+
     def _mark_as_final(self):
         self._is_final = True
         return self
-- 
2.43.0


From 29940afb9ce02461bcba1caf60f770388888b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 007/110] fix: list the existing subsamplers in skada.__all__

---
 skada/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/__init__.py b/skada/__init__.py
index 927a8b0..b39a7d0 100644
--- a/skada/__init__.py
+++ b/skada/__init__.py
@@ -132,8 +132,9 @@ __all__ = [
     "JDOTClassifier",
     "OTLabelPropAdapter",
 
-    "SubsampleTransformer",
-    "DomainStratifiedSubsampleTransformer",
+    "Subsampler",
+    "DomainSubsampler",
+    "StratifiedDomainSubsampler",
 
     "make_da_pipeline",
 
-- 
2.43.0


From 5adeba3927da1930361dcd7b9a90a6c84042447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 008/110] fix: PerDomain drops the domain labels together with
 masked samples

---
 skada/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index 046ba25..569f6f5 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -483,7 +483,11 @@ class PerDomain(BaseSelector):
         routing = get_routing_for_object(self.base_estimator)
         routing_request = getattr(routing, method_name)
         routed_params = self._prepare_routing(routing_request, X_container, params)
-        X, y, routed_params = self._remove_masked(X, y, routed_params)
+        # domain labels have to follow the samples when the masked ones are removed
+        X, y, routed_params = self._remove_masked(
+            X, y, {**routed_params, '_domain_labels': sample_domain}
+        )
+        sample_domain = routed_params.pop('_domain_labels')
         estimators, outputs = {}, {}
         for domain_label in np.unique(sample_domain):
             idx, = np.where(sample_domain == domain_label)
-- 
2.43.0


From 81b4db8089097d4e7ac8624333cac4160bed899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 009/110] fix: support transformers without fit_transform in
 PerDomain and SelectSourceTarget

---
 skada/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index 569f6f5..f500203 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -512,11 +512,10 @@ class PerDomain(BaseSelector):
             if self.mask_target_labels:
                 y = self._auto_mask_target_labels(y, params)
 
-            self._fit(X_container, y, **params)
+            self._fit('fit', X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = _route_params(self.routing_.transform, method_params, self)
             # the output of the transform call is already merged into a single ndarray
-            output = self.transform(X, **transform_params)
+            output = self.transform(X, **method_params)
         return X_container.merge_in(output)
 
     def _route_to_estimator(self, method_name, X, y=None, **params):
@@ -748,8 +747,7 @@ class SelectSourceTarget(BaseSelector):
         else:
             self.fit(X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = _route_params(self.routing_.transform, method_params, self)
-            output = self.transform(X, **transform_params)
+            output = self.transform(X, **method_params)
         return X_container.merge_in(output)
 
     def _route_to_estimator(self, method_name, X, y=None, **params):
-- 
2.43.0


From 380ba4af557ac58dcaf9760ef04788493a554cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 010/110] fix: do not truncate outputs when merging per-domain
 predictions

---
 skada/_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 5c4178b..bef0ee3 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -207,9 +207,9 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
         output = X_output, y_output, params_output
     else:
         assert isinstance(first_output, np.ndarray)
-        output = np.zeros(
-            (n_samples, *first_output.shape[1:]), dtype=first_output.dtype
-        )
+        # use a type that can hold the outputs of all domains
+        dtype = np.result_type(*(output for _, output in domain_outputs.values()))
+        output = np.zeros((n_samples, *first_output.shape[1:]), dtype=dtype)
         for idx, domain_output in domain_outputs.values():
             output[idx] = domain_output
     return output
-- 
2.43.0


From db06167c0bbc4a129bca32cc072442779780863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 011/110] fix: make predict available in SelectSourceTarget

---
 skada/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index f500203..9b38fb9 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -780,6 +780,10 @@ class SelectSourceTarget(BaseSelector):
     def transform(self, X, **params):
         return self._route_to_estimator('transform', X, **params)
 
+    @available_if(_estimator_has('predict', base_attr_name='source_estimator'))
+    def predict(self, X, **params):
+        return self._route_to_estimator('predict', X, **params)
+
     # xxx(okachaiev): i guess this should return 'True' only if both
     # estimators have the same method. though practical advantage is,
     # surely, questionable
-- 
2.43.0


From 2d359f146cccbf319a5051f1f6bb95f5f8af165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 012/110] fix: return rows in the input order from TCA and TJM
 transform of the training data

---
 skada/_subspace.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 751195f..146c836 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -363,6 +363,12 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
             X_target, self.X_target_
         ):
             X_ = (self.K_ @ self.eigvects_)[: X.shape[0]]
+            # rows of `K_` are ordered as sources first, then targets
+            X_, _ = source_target_merge(
+                X_[: X_source.shape[0]],
+                X_[X_source.shape[0] :],
+                sample_domain=sample_domain,
+            )
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
@@ -524,6 +530,12 @@ class TransferJointMatchingAdapter(BaseAdapter):
         ):
             K = self._get_kernel_matrix(X_source, X_target)
             X_ = K @ self.A_
+            # rows of `K` are ordered as sources first, then targets
+            X_, _ = source_target_merge(
+                X_[: X_source.shape[0]],
+                X_[X_source.shape[0] :],
+                sample_domain=sample_domain,
+            )
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
-- 
2.43.0


From fdaaaa6e783aefb12072f70fcca9ee446b9c7733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 013/110] fix: apply the row-sparsity of TJM to the source rows
 of the kernel matrix

---
 skada/_subspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 146c836..71ff343 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -21,7 +21,6 @@ from ._pipeline import make_da_pipeline
 from .base import BaseAdapter
 from .utils import (
     check_X_domain,
-    extract_source_indices,
     source_target_merge,
     source_target_split,
     torch_minimize,
@@ -590,7 +589,8 @@ class TransferJointMatchingAdapter(BaseAdapter):
         self.X_target_ = X_target
 
         n = X.shape[0]
-        source_mask = extract_source_indices(sample_domain)
+        # rows of the kernel matrix are ordered as sources first, then targets
+        source_mask = np.arange(n) < X_source.shape[0]
 
         H = np.identity(n) - 1 / n * np.ones((n, n))
         K = self._get_kernel_matrix(X_source, X_target)
-- 
2.43.0


From c8ccb8de77492d43e96976488054872774b3c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 014/110] fix: iterate TJM until convergence instead of
 stopping after one iteration

---
 skada/_subspace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 71ff343..9b475d4 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -599,7 +599,7 @@ class TransferJointMatchingAdapter(BaseAdapter):
         G = np.identity(n)
 
         EPS_eigval = 1e-10
-        last_loss = -2 * self.tol
+        last_loss = None
         for i in range(self.max_iter):
             # update A
             B = K @ M @ K.T + self.tradeoff * G
@@ -642,7 +642,10 @@ class TransferJointMatchingAdapter(BaseAdapter):
                 print(f"Constraint satisfaction: {cond}, dist={dist:.3e}")
                 print(f"Error of generalized eigendecomposition: {error_eigv:.3e}")
 
-            if last_loss == 0 or np.abs(last_loss - loss_total) / last_loss < self.tol:
+            if last_loss is not None and (
+                last_loss == 0
+                or np.abs(last_loss - loss_total) / last_loss < self.tol
+            ):
                 break
             else:
                 last_loss = loss_total
-- 
2.43.0


From 37a8a0368b58bc629b6778eba1a33ebcd78a3897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 015/110] fix: solve the TCA eigenproblem as a generalized
 symmetric one

---
 skada/_subspace.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 9b475d4..1ae643e 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -297,9 +297,8 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
 
         A = np.eye(ns + nt) + self.mu * K @ L @ K
         B = K @ H @ K
-        solution = np.linalg.solve(A, B)
-
-        eigvals, eigvects = np.linalg.eigh(solution)
+        # `A^{-1} B` is not symmetric: solve the generalized symmetric problem
+        eigvals, eigvects = scipy.linalg.eigh(B, A)
 
         if self.n_components is None:
             n_components = min(X.shape[0], X.shape[1])
-- 
2.43.0


From 1a1ade745c4cd5466b0043b110af83a2f09ec3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 016/110] fix: minimize the LPP objective in TSL instead of
 maximizing it

---
 skada/_subspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 1ae643e..baa4307 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -844,7 +844,7 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
             E = torch.exp(-torch.cdist(X_source, X_source) / self.length_scale)
             E = E * (y_source[:, None] == y_source[None, :])
             D = torch.diag(torch.sum(E, dim=1))
-            loss = -2 * torch.trace(W.T @ X_source.T @ (D - E) @ X_source @ W)
+            loss = 2 * torch.trace(W.T @ X_source.T @ (D - E) @ X_source @ W)
 
         return loss
 
-- 
2.43.0


From 794093dbe3f97d6b1bd20d2e6f111475a38401a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 017/110] fix: use within-class over between-class scatter in
 the TSL discriminant objective

---
 skada/_subspace.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index baa4307..844bcf8 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -830,14 +830,15 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
             cov = self._torch_cov(X_source)
             loss = -torch.trace(W.T @ cov @ W)
         elif base_method == "flda":
-            classes = torch.unique(y_source)
+            classes, y_index = torch.unique(y_source, return_inverse=True)
             classes_means = torch.stack(
                 [torch.mean(X_source[y_source == c], dim=0) for c in classes]
             )
             classes_n_samples = torch.stack([torch.sum(y_source == c) for c in classes])
-            classes_means = classes_means * torch.sqrt(classes_n_samples).reshape(-1, 1)
-            S_W = self._torch_cov(classes_means)
-            S_B = self._torch_cov(X_source)
+            # within-class scatter, and scatter of the class means
+            S_W = self._torch_cov(X_source - classes_means[y_index])
+            deviations = classes_means - torch.mean(X_source, dim=0)
+            S_B = (deviations.T * classes_n_samples) @ deviations / len(X_source)
             loss = torch.trace(W.T @ S_W @ W) / torch.trace(W.T @ S_B @ W)
         elif base_method == "lpp":
             # E is the Gaussian kernel if (y_source)_i == (y_source)_j and 0 otherwise
-- 
2.43.0


From 1094aff63398109dd3482a8736d6d46f2ff5f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 018/110] fix: keep the constructor value of reg in
 TransferSubspaceLearningAdapter

---
 skada/_subspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 844bcf8..6f3bef6 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -779,7 +779,7 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
         self.mu = mu
         if reg is not None and (reg < 0 or reg > 1):
             raise ValueError("reg should be None or between 0 and 1.")
-        self.reg = 0 if reg is None else reg
+        self.reg = reg
         self.max_iter = max_iter
         self.tol = tol
         self.verbose = verbose
@@ -788,7 +788,7 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
         """Compute the covariance matrix of X using torch."""
         if self.torch:
             import torch
-        reg = self.reg
+        reg = 0 if self.reg is None else self.reg
 
         n_samples, d = X.shape
         X = X - torch.mean(X, dim=0)
-- 
2.43.0


From 232af4ad29e4f7b91684c8015de168570988470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 019/110] fix: weight sources by the target-to-source odds in
 DiscriminatorReweight, not the inverse

---
 skada/_reweight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 8395d76..32227f2 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -356,8 +356,9 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
         # as we only use this array for indexing
         (source_idx,) = np.where(source_idx)
         probas = self.domain_classifier_.predict_proba(X[source_idx])[:, 1]
-        probas = np.clip(probas, EPS, 1.0)
-        source_weights = (1 - probas) / probas
+        probas = np.clip(probas, 0.0, 1.0 - EPS)
+        # target-to-source density ratio
+        source_weights = probas / (1 - probas)
         source_weights /= source_weights.mean()
         weights = np.zeros(X.shape[0], dtype=source_weights.dtype)
         weights[source_idx] = source_weights
-- 
2.43.0


From 825ee2b4c3eb75dbed9a46d96373699ddd0f3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 020/110] fix: do not overwrite the gamma parameter when
 fitting KLIEPReweightAdapter

---
 skada/_reweight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 32227f2..ac567e4 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -485,9 +485,9 @@ class KLIEPReweightAdapter(BaseReweightAdapter):
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
 
         if isinstance(self.gamma, list):
-            self.gamma = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
+            gammas = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
             self.best_gamma_ = self._likelihood_cross_validation(
-                self.gamma, X_source, X_target
+                gammas, X_source, X_target
             )
         else:
             self.best_gamma_ = self._auto_scale_gammas(self.gamma, X)
-- 
2.43.0


From 8d8063f0359a1e8e33a53271bc4e64923ff164ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 021/110] fix: make set_params effective for
 NearestNeighborReweightAdapter

---
 skada/_reweight.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index ac567e4..ba9b94f 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -754,7 +754,11 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         self.metric_params = metric_params
         self.n_jobs = n_jobs
         self.laplace_smoothing = laplace_smoothing
-        self.base_estimator = KNeighborsClassifier(
+
+    @property
+    def base_estimator(self):
+        # built on access so that it always reflects the current parameters
+        return KNeighborsClassifier(
             n_neighbors=self.n_neighbors,
             weights=self.weights,
             algorithm=self.algorithm,
-- 
2.43.0


From 2ed96218836d753370710410632bd67061445bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 022/110] fix: count nearest neighbours of the target samples
 in NearestNeighborReweightAdapter

---
 skada/_reweight.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index ba9b94f..b482e65 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -810,15 +810,13 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
     def compute_weights(self, X, y=None, *, sample_domain=None, **params):
         X, sample_domain = check_X_domain(X, sample_domain, allow_source=True)
         source_idx = extract_source_indices(sample_domain)
-        # xxx(okachaiev): do we need np.where here?
-        (source_idx,) = np.where(source_idx)
         indices_source = np.arange(X[source_idx].shape[0])
         if np.array_equal(self.X_source_fit, X[source_idx]):
             estimator = self.estimator_
         else:
             estimator = clone(self.base_estimator)
             estimator.fit(X[source_idx], indices_source)
-        weights = np.ones(X.shape[0])
+        weights = np.zeros(X.shape[0])
         weights[source_idx] = self._get_weights(X[source_idx], X[~source_idx])
         return weights
 
-- 
2.43.0


From ed5df3537789b5e8241b7dceef9ca7ad210155cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 023/110] fix: multiply the DEV errors and weights sample by
 sample

---
 skada/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/metrics.py b/skada/metrics.py
index 186018a..c2b44d3 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -466,6 +466,8 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
 
         error = self._loss_func(y_val, y_pred)
         assert weights.shape[0] == error.shape[0]
+        # one column, as the weights, otherwise the product is an outer product
+        error = error.reshape(-1, 1)
 
         weighted_error = weights * error
         weights_m = np.concatenate((weighted_error, weights), axis=1)
-- 
2.43.0


From 3d0dd006f05b17c8bb6b843941fe1c8f1ee54814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 024/110] fix: return one entropy value per sample from
 PredictionEntropyScorer(reduction='none')

---
 skada/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index c2b44d3..1c038bc 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -272,7 +272,8 @@ class PredictionEntropyScorer(_BaseDomainAwareScorer):
         entropy_per_sample = -proba * log_proba
         entropy_per_sample[infty_mask] = 0  # x*log(x) -> 0 as x -> 0
         if self.reduction == "none":
-            return self._sign * entropy_per_sample
+            # one value per sample
+            return self._sign * np.sum(entropy_per_sample, axis=1)
         elif self.reduction == "sum":
             return self._sign * np.sum(entropy_per_sample)
         elif self.reduction == "mean":
-- 
2.43.0


From f7a3dd69c56b2da652144a740c6fd3753711e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 025/110] fix: do not shift the logits in place when computing
 the MaNo criterion

---
 skada/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 1c038bc..887d5b3 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -919,7 +919,7 @@ class MaNoScorer(_BaseDomainAwareScorer):
     @staticmethod
     def _stable_softmax(logits):
         """Compute softmax function."""
-        logits -= np.max(logits, axis=1, keepdims=True)
+        logits = logits - np.max(logits, axis=1, keepdims=True)
         exp_logits = np.exp(logits)
         exp_logits /= np.sum(exp_logits, axis=1, keepdims=True)
         return exp_logits
-- 
2.43.0


From 56c9fb3b1a2021afa814328ab4c9279afbcaaf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 026/110] fix: keep SoftNeighborhoodDensity finite when
 similarities underflow

---
 skada/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 887d5b3..780b81a 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -11,6 +11,7 @@ from abc import abstractmethod
 from copy import deepcopy
 
 import numpy as np
+from scipy.special import entr
 from sklearn.base import clone
 from sklearn.linear_model import LogisticRegression
 from sklearn.metrics import balanced_accuracy_score, check_scoring
@@ -331,7 +332,7 @@ class SoftNeighborhoodDensity(_BaseDomainAwareScorer):
         np.fill_diagonal(similarity_matrix, -np.diag(similarity_matrix))
         similarity_matrix = softmax(similarity_matrix)
 
-        entropy = np.sum(-similarity_matrix * np.log(similarity_matrix), axis=1)
+        entropy = np.sum(entr(similarity_matrix), axis=1)  # entr(0) is 0
         return self._sign * np.mean(entropy)
 
 
-- 
2.43.0


From cf6b4e3a410a87382fb72faaa43f24d82e302d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 027/110] fix: honour allow_source in
 MultiLinearMongeAlignmentAdapter.transform

---
 skada/_mapping.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index cb1caf9..a72dba6 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -688,7 +688,11 @@ class MultiLinearMongeAlignmentAdapter(BaseAdapter):
         self, X, y=None, *, sample_domain=None, allow_source=False, **params
     ) -> np.ndarray:
         X, sample_domain = check_X_domain(
-            X, sample_domain, allow_multi_source=True, allow_multi_target=True
+            X,
+            sample_domain,
+            allow_source=allow_source,
+            allow_multi_source=True,
+            allow_multi_target=True,
         )
         idx = extract_domains_indices(sample_domain)
         X_adapt = X.copy()
-- 
2.43.0


From b2400dbffbbbce70f777e5d97f0e72d352da3467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 028/110] fix: do not truncate samples mapped by
 MultiLinearMongeAlignmentAdapter to integers

---
 skada/_mapping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index a72dba6..40e0634 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -695,7 +695,8 @@ class MultiLinearMongeAlignmentAdapter(BaseAdapter):
             allow_multi_target=True,
         )
         idx = extract_domains_indices(sample_domain)
-        X_adapt = X.copy()
+        # mapped samples are not integers even if the input is
+        X_adapt = X.astype(np.result_type(X.dtype, np.float32))
 
         for domain, sel in idx.items():
             A, b = self.mappings_[domain]
-- 
2.43.0


From 47618f112fc3283105fcb1dfeaf2f91c3810dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 029/110] fix: never reuse an existing name when generating a
 domain name

---
 skada/datasets/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 20974c5..16e1edc 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -144,7 +144,10 @@ class DomainAwareDataset:
             # xxx(okachaiev): ValueError would be more appropriate
             assert domain_name not in self.domain_names_
         else:
-            domain_name = f"_{len(self.domain_names_)+1}"
+            index = len(self.domain_names_) + 1
+            while f"_{index}" in self.domain_names_:
+                index += 1
+            domain_name = f"_{index}"
         domain_id = len(self.domains_) + 1
         self.domains_.append((X, y) if y is not None else (X,))
         self.domain_names_[domain_name] = domain_id
-- 
2.43.0


From d0c094b7b61b79394a169ba928663c9fd3125b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 030/110] fix: merge datasets with unlabelled domains

---
 skada/datasets/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 16e1edc..fc2efae 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -175,7 +175,8 @@ class DomainAwareDataset:
             # xxx(okachaiev): this needs to be more flexible
             # as it should be possible to pass only X with y=None
             # i guess best way of doing so is to change 'add_domain' API
-            X, y = dataset.get_domain(domain_name)
+            X, *labels = dataset.get_domain(domain_name)
+            y = labels[0] if labels else None
             if names_mapping is not None:
                 domain_name = names_mapping.get(domain_name, domain_name)
             self.add_domain(X, y, domain_name)
-- 
2.43.0


From dc0a10892a20e2900c79426ad033366b9be7e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 031/110] fix: accept a dictionary of domains in
 DomainAwareDataset as documented

---
 skada/datasets/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index fc2efae..d4d15a3 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -111,6 +111,8 @@ class DomainAwareDataset:
         self.domain_names_ = {}
         # xxx(okachaiev): there should be a simpler way for adding those
         if domains is not None:
+            if isinstance(domains, Mapping):
+                domains = [(*d, name) for name, d in domains.items()]
             for d in domains:
                 if len(d) == 2:
                     X, y = d
-- 
2.43.0


From 229d4b7d2587f28a737163aec474aa82feb093c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 032/110] fix: mask target labels of tensors and of every
 integer, boolean and floating type when packing

---
 skada/datasets/_base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index d4d15a3..b62fc4f 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -336,11 +336,19 @@ class DomainAwareDataset:
             if mask_target_labels:
                 if mask is not None:
                     y = np.array([mask] * X.shape[0], dtype=dtype)
-                elif y.dtype in (np.int32, np.int64):
-                    y = -np.ones(X.shape[0], dtype=y.dtype)
+                elif _IS_TORCH_IMPORTED and isinstance(y, torch.Tensor):
+                    if y.is_floating_point():
+                        y = torch.full_like(y, np.nan)
+                    else:
+                        y_dtype = torch.promote_types(y.dtype, torch.int8)
+                        y = torch.full_like(y, -1, dtype=y_dtype)
+                elif np.issubdtype(y.dtype, np.integer) or y.dtype == bool:
+                    # unsigned labels need a type that can hold the mask
+                    y_dtype = np.result_type(y.dtype, np.int8)
+                    y = -np.ones(X.shape[0], dtype=y_dtype)
                     # make sure that the mask is reused on the next iteration
                     mask, dtype = -1, y.dtype
-                elif y.dtype in (np.float32, np.float64):
+                elif np.issubdtype(y.dtype, np.floating):
                     y = np.array([np.nan] * X.shape[0], dtype=y.dtype)
                     # make sure that the  mask is reused on the next iteration
                     mask, dtype = np.nan, y.dtype
-- 
2.43.0


From e4a8a0edf1e24fc8d3c26f99cfff65a6e88ef767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 033/110] fix: pack numpy domains as tensors as documented

---
 skada/datasets/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index b62fc4f..d8dabb1 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -383,8 +383,8 @@ class DomainAwareDataset:
                     "torch is required to return data as tensors. "
                     "Please install torch to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
@@ -399,8 +399,8 @@ class DomainAwareDataset:
                     "torch and skorch are required to return data as DeepDADataset. "
                     "Please install them to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
-- 
2.43.0


From d8d2bc92efbc926331af70e3c968081486849e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 034/110] fix: accept a RandomState instance in the dataset
 generators as documented

---
 skada/datasets/_samples_generator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index fc3d272..3ff507d 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -12,6 +12,7 @@ from scipy import signal
 from scipy.fftpack import irfft, rfft
 from scipy.stats import multivariate_normal
 from sklearn.datasets import make_blobs
+from sklearn.utils import check_random_state
 
 from ._base import DomainAwareDataset
 
@@ -339,7 +340,7 @@ def make_shifted_blobs(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     X_source, y_source = make_blobs(
         n_samples=n_samples,
@@ -491,7 +492,7 @@ def make_shifted_datasets(
             A unifying view on dataset shift in classification.
             Pattern recognition, 45(1):521-530.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     X_source, y_source = _generate_data_2d_classif(
         n_samples_source,
         rng,
@@ -680,7 +681,7 @@ def make_dataset_from_moons_distribution(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     dataset = DomainAwareDataset(domains=[])
     sources = []
@@ -814,7 +815,7 @@ def make_variable_frequency_dataset(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     input_size = 3000
     fs = 100
     highest_frequency = 15
-- 
2.43.0


From f0544ad87004b69658a168997a1204ab2b280fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 035/110] fix: DASVM keeps going once every target sample has
 been added

---
 skada/_self_labeling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 99d6acd..70e8cfc 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -129,10 +129,9 @@ class DASVMClassifier(DAEstimator):
             # `binary` case or the `multiclass` one
             decisions = np.ones(X.shape[0])
             decisions[~indices_list] = df
-            decisions = np.array([-decisions + 1, decisions + 1]).T
         else:
             decisions = np.ones(X.shape[0])
-        return decisions
+        return np.array([-decisions + 1, decisions + 1]).T
 
     def fit(self, X, y=None, sample_domain=None):
         """Fit adaptation parameters.
-- 
2.43.0


From d2075686a9a08191c6074a4137cf0fe54a4495ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 036/110] fix: DASVM predict_proba uses the final estimator
 like predict

---
 skada/_self_labeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 70e8cfc..2a01c7e 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -292,7 +292,7 @@ class DASVMClassifier(DAEstimator):
         `predict_proba` method from the estimator we fitted
         """
         check_is_fitted(self)
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def decision_function(self, X):
         """Return values of the decision function of the
-- 
2.43.0


From 2ecd22122ae0110bd4024ab1d13cce6681ab9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 037/110] fix: DASVM does not fit the estimator it was
 constructed with

---
 skada/_self_labeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 2a01c7e..6d10b14 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -168,7 +168,7 @@ class DASVMClassifier(DAEstimator):
 
         X_train = Xs
         y_train = ys
-        new_estimator = self.base_estimator
+        new_estimator = clone(self.base_estimator)
         new_estimator.fit(X_train, y_train)
 
         if self.save_estimators:
-- 
2.43.0


From cab89078304a00946ff33bc9696986fe3ab18d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 038/110] fix: DASVM moves k points per class at each step as
 documented

---
 skada/_self_labeling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 6d10b14..ede7be3 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -93,8 +93,10 @@ class DASVMClassifier(DAEstimator):
         """
         # We should take k points for each of the c classes,
         # depending on the values of d
-        condition = np.logical_and(~indices_list, cond_array)
-        for _ in range(min(self.k, math.ceil(sum(condition) / self.n_class))):
+        n_available = np.sum(np.logical_and(~indices_list, cond_array))
+        for _ in range(min(self.k, math.ceil(n_available / self.n_class))):
+            # the points taken so far can't be taken again
+            condition = np.logical_and(~indices_list, cond_array)
             idx = np.unique(np.argmax(d[condition], axis=0))
             # We need to get all those indices to be take into account
             # the fact that the some previous points weren't in the list
-- 
2.43.0


From b0a6ae08aa9f67491dd4d39926788399cb98fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 039/110] fix: JDOT hinge cost of binary problems depends on
 the label

---
 skada/_ot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index cec768d..c44d3ff 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -73,7 +73,7 @@ def get_jdot_class_cost_matrix(Ys, Xt, estimator=None, metric="multinomial"):
         if hasattr(estimator, "decision_function"):
             Yt_pred = estimator.decision_function(Xt)
             if len(Yt_pred.shape) == 1:
-                Yt_pred = np.repeat(Yt_pred.reshape(-1, 1), 2, axis=1)
+                Yt_pred = np.stack([-Yt_pred, Yt_pred], axis=1)
             M = np.maximum(0, 1 - Ys[:, None, :] * Yt_pred[None, :, :]).sum(2)
         else:
             raise ValueError(
@@ -184,7 +184,7 @@ def get_tgt_loss_jdot_class(Xh, yh, wh, estimator, metric="multinomial"):
         if hasattr(estimator, "decision_function"):
             Yh_pred = estimator.decision_function(Xh)
             if len(Yh_pred.shape) == 1:  # handle binary classification
-                Yh_pred = np.repeat(Yh_pred.reshape(-1, 1), 2, axis=1)
+                Yh_pred = np.stack([-Yh_pred, Yh_pred], axis=1)
             loss = np.sum(np.maximum(0, 1 - yh * Yh_pred), 1).dot(wh)
         else:
             raise ValueError(
-- 
2.43.0


From 07cf160e9b709695594da2806447f366a5fde57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 040/110] fix: JDOT estimators return self from fit

---
 skada/_ot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/_ot.py b/skada/_ot.py
index c44d3ff..3412c60 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -592,6 +592,8 @@ class JDOTRegressor(DAEstimator):
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
 
+        return self
+
     def predict(self, X, sample_domain=None, *, sample_weight=None):
         """Predict using the model"""
         check_is_fitted(self)
@@ -722,6 +724,8 @@ class JDOTClassifier(DAEstimator):
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
 
+        return self
+
     def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
         check_is_fitted(self)
-- 
2.43.0


From 6309b7f99e40a40720eba2fa547b0727948cb05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 041/110] fix: JDOTRegressor.predict accepts allow_source like
 other domain-aware estimators

---
 skada/_ot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 3412c60..273605c 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -594,7 +594,7 @@ class JDOTRegressor(DAEstimator):
 
         return self
 
-    def predict(self, X, sample_domain=None, *, sample_weight=None):
+    def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
         check_is_fitted(self)
         if sample_domain is not None and np.any(sample_domain >= 0):
-- 
2.43.0


From cc803764410ac93d99c912b992820d1a4c4b8053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 042/110] fix: JCPOT label propagation keeps the target order
 and any class numbering

---
 skada/_ot.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 273605c..911e3f6 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -953,18 +953,20 @@ class JCPOTLabelPropAdapter(BaseAdapter):
     def fit_transform(self, X, y, sample_domain=None, *, sample_weight=None):
         X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
 
-        sources, targets = per_domain_split(X, y, sample_domain=sample_domain)
+        sources, _ = per_domain_split(X, y, sample_domain=sample_domain)
+
+        # POT expects the classes to be numbered from 0
+        self.classes_ = np.unique(y[sample_domain >= 0])
 
         Xs = [X for X, y in sources.values()]
-        ys = [y for X, y in sources.values()]
+        ys = [np.searchsorted(self.classes_, y) for X, y in sources.values()]
 
         if len(ys) == 1:
             Xs = Xs * 2
             ys = ys * 2
 
-        Xt = [X for X, y in targets.values()]
-
-        Xt = np.concatenate(Xt, axis=0)
+        # targets in the order of the input, for any number of target domains
+        Xt = X[sample_domain < 0]
 
         self.ot_adapter_ = ot.da.JCPOTTransport(
             reg_e=self.reg,
@@ -980,7 +982,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         self.yh_continuous_ = yh
 
-        yh = np.argmax(yh, axis=1)
+        yh = self.classes_[np.argmax(yh, axis=1)]
 
         yout = -np.ones_like(y)
         yout[sample_domain < 0] = yh
-- 
2.43.0


From 0e36292d8dd1ac625dec60877994d8e4f2817f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 043/110] fix: ClassRegularizerOTMapping no longer shares one
 default estimator between pipelines

---
 skada/_mapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index 40e0634..7bdaf09 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -380,7 +380,7 @@ class ClassRegularizerOTMappingAdapter(BaseOTMappingAdapter):
 
 
 def ClassRegularizerOTMapping(
-    base_estimator=SVC(kernel="rbf"),
+    base_estimator=None,
     metric="sqeuclidean",
     norm="lpl1",
     max_iter=10,
@@ -426,6 +426,9 @@ def ClassRegularizerOTMapping(
            Optimal Transport for Domain Adaptation, in IEEE
            Transactions on Pattern Analysis and Machine Intelligence
     """
+    if base_estimator is None:
+        base_estimator = SVC(kernel="rbf")
+
     ot_mapping = make_da_pipeline(
         ClassRegularizerOTMappingAdapter(
             metric=metric,
-- 
2.43.0


From 1cca568b0992a2169f8a242369ada41168896994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 044/110] fix: GradualEstimator does not fit the OT method it
 was constructed with

---
 skada/_gradual_da.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 81f19be..5e6f688 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -108,8 +108,9 @@ class GradualEstimator(DAEstimator):
         target = sample_domain < 0
 
         # Compute the OT mapping between source and target
-        self.ot_method.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
-        gamma = self.ot_method.coupling_
+        self.ot_method_ = deepcopy(self.ot_method)
+        self.ot_method_.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
+        gamma = self.ot_method_.coupling_
         if self.advanced_ot_plan_sampling:
             mask_gamma = self._advanced_cut_off_gamma(gamma)
         else:
-- 
2.43.0


From fafa901ec7bf749e8c60a3e795c77b79691c5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 045/110] fix: GradualEstimator does not fit nor change the
 estimator it was constructed with

---
 skada/_gradual_da.py | 55 +++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 34 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 5e6f688..da4b0c5 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -7,6 +7,7 @@ from copy import deepcopy
 
 import numpy as np
 from ot import da
+from sklearn.base import clone
 from sklearn.neural_network import MLPClassifier
 from sklearn.utils.validation import check_is_fitted
 
@@ -116,7 +117,7 @@ class GradualEstimator(DAEstimator):
         else:
             mask_gamma = self._cut_off_gamma(gamma)
         source = sample_domain >= 0
-        if not self.base_estimator:
+        if self.base_estimator is None:
             default_params = {
                 "hidden_layer_sizes": (100,),
                 "activation": "relu",
@@ -126,20 +127,22 @@ class GradualEstimator(DAEstimator):
                 "learning_rate_init": 0.001,
                 "max_iter": 100,
             }
-            self.base_estimator = MLPClassifier(**default_params)
-        self.base_estimator.fit(X[source], y[source])
+            self.base_estimator_ = MLPClassifier(**default_params)
+        else:
+            self.base_estimator_ = clone(self.base_estimator)
+        self.base_estimator_.fit(X[source], y[source])
         if self.save_estimators:
-            self.estimators_.append(deepcopy(self.base_estimator))
+            self.estimators_.append(deepcopy(self.base_estimator_))
         if self.save_intermediate_data:
             self.intermediate_data_ = []
         for step in range(1, self.n_steps + 1):
             X_step, y_step = self.generate_data_at_step(
                 X, sample_domain, mask_gamma, step
             )
-            self.base_estimator.max_iter += 100
-            self.base_estimator.fit(X_step, y_step)
+            self.base_estimator_.max_iter += 100
+            self.base_estimator_.fit(X_step, y_step)
             if self.save_estimators:
-                self.estimators_.append(deepcopy(self.base_estimator))
+                self.estimators_.append(deepcopy(self.base_estimator_))
             if self.save_intermediate_data:
                 self.intermediate_data_.append((X_step, y_step))
         return self
@@ -199,7 +202,7 @@ class GradualEstimator(DAEstimator):
                 i
             ] / self.n_steps + step * X_target[j] / self.n_steps
 
-        y_step = self.base_estimator.predict(
+        y_step = self.base_estimator_.predict(
             X_step
         )  # Use the classifier to predict labels
         return X_step, y_step
@@ -227,14 +230,10 @@ class GradualEstimator(DAEstimator):
         y_pred : array-like, shape (n_samples,)
             The predicted labels.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self)
 
         # Use the last classifier to predict
-        return self.base_estimator.predict(X, **kwargs)
+        return self.base_estimator_.predict(X, **kwargs)
 
     def predict_proba(self, X, **kwargs):
         """Predict class probabilities for the input data.
@@ -249,16 +248,12 @@ class GradualEstimator(DAEstimator):
         y_proba : array-like, shape (n_samples, n_classes)
             The predicted class probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self)
 
-        if not hasattr(self.base_estimator, "predict_proba"):
+        if not hasattr(self.base_estimator_, "predict_proba"):
             raise ValueError("The underlying estimator does not support predict_proba.")
 
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def predict_log_proba(self, X, **kwargs):
         """Predict class log-probabilities for the input data.
@@ -273,18 +268,14 @@ class GradualEstimator(DAEstimator):
         y_log_proba : array-like, shape (n_samples, n_classes)
             The predicted class log-probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self)
 
-        if not hasattr(self.base_estimator, "predict_log_proba"):
+        if not hasattr(self.base_estimator_, "predict_log_proba"):
             raise ValueError(
                 "The underlying estimator does not support predict_log_proba."
             )
 
-        return self.base_estimator.predict_log_proba(X, **kwargs)
+        return self.base_estimator_.predict_log_proba(X, **kwargs)
 
     def score(self, X, y):
         """Compute the accuracy of the model on the given data.
@@ -301,10 +292,6 @@ class GradualEstimator(DAEstimator):
         score : float
             The accuracy of the model.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self)
 
-        return (self.base_estimator.predict(X) == y).sum() / len(y)
+        return (self.base_estimator_.predict(X) == y).sum() / len(y)
-- 
2.43.0


From a89a368c62ecf499ec7a25eeadae965edebbc954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 046/110] fix: GradualEstimator handles ties and zeros in the
 transport plan

---
 skada/_gradual_da.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index da4b0c5..4429a20 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -154,7 +154,9 @@ class GradualEstimator(DAEstimator):
         self.max_index = int(min(self.alpha * (n + m), gamma.size - 1))
 
         threshold = np.sort(gamma.flatten())[-self.max_index - 1]
-        return gamma >= threshold
+        # pairs without any transported mass are never kept, pairs tied with
+        # the threshold all are
+        return (gamma >= threshold) & (gamma > 0)
 
     def _advanced_cut_off_gamma(self, gamma):
         """Cut off the OT mapping to keep at least one value per row and column."""
@@ -196,7 +198,7 @@ class GradualEstimator(DAEstimator):
         target = sample_domain < 0
         X_source = X[source]
         X_target = X[target]
-        X_step = np.zeros((self.max_index + 1, X.shape[1]))
+        X_step = np.zeros((np.sum(mask_gamma), X.shape[1]))
         for idx, (i, j) in enumerate(np.argwhere(mask_gamma)):
             X_step[idx] = (self.n_steps - step) * X_source[
                 i
-- 
2.43.0


From d2f644442d67ca4625805d6b7f872c2e6ea02655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 047/110] fix: GradualEstimator.score works inside a pipeline

---
 skada/_gradual_da.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 4429a20..97c15a8 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -8,6 +8,7 @@ from copy import deepcopy
 import numpy as np
 from ot import da
 from sklearn.base import clone
+from sklearn.metrics import accuracy_score
 from sklearn.neural_network import MLPClassifier
 from sklearn.utils.validation import check_is_fitted
 
@@ -279,7 +280,7 @@ class GradualEstimator(DAEstimator):
 
         return self.base_estimator_.predict_log_proba(X, **kwargs)
 
-    def score(self, X, y):
+    def score(self, X, y, sample_domain=None, *, sample_weight=None, **kwargs):
         """Compute the accuracy of the model on the given data.
 
         Parameters
@@ -288,6 +289,10 @@ class GradualEstimator(DAEstimator):
             The input data.
         y : array-like, shape (n_samples,)
             The true labels.
+        sample_domain : array-like, shape (n_samples,)
+            The domain labels (ignored).
+        sample_weight : array-like, shape (n_samples,)
+            The sample weights.
 
         Returns
         -------
@@ -296,4 +301,6 @@ class GradualEstimator(DAEstimator):
         """
         check_is_fitted(self)
 
-        return (self.base_estimator_.predict(X) == y).sum() / len(y)
+        return accuracy_score(
+            y, self.base_estimator_.predict(X), sample_weight=sample_weight
+        )
-- 
2.43.0


From 4df4c3e52c049ad89aeb2e18410371424bdac783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 048/110] fix: MemoryBank refreshes the memory with the new
 features and outputs

---
 skada/deep/callbacks.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 9fc7e6b..70d94ef 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -158,13 +158,15 @@ class MemoryBank(Callback):
 
             new_memory_features = (
                 1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_features[batch_idx]
-            +self.momentum * features_t.clone()
+            ) * net.criterion__adapt_criterion.memory_features[
+                batch_idx
+            ] + self.momentum * features_t.clone()
 
             new_memory_outputs = (
                 1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_outputs[batch_idx]
-            +self.momentum * outputs_target.clone()
+            ) * net.criterion__adapt_criterion.memory_outputs[
+                batch_idx
+            ] + self.momentum * outputs_target.clone()
 
         net.criterion__adapt_criterion.memory_features[batch_idx] = new_memory_features
         net.criterion__adapt_criterion.memory_outputs[batch_idx] = new_memory_outputs
-- 
2.43.0


From 5e0bc390a265a72141a8949f25674c54afda1b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 049/110] fix: CountEpochs resets the epoch counter of the
 adaptation loss at every fit

---
 skada/deep/callbacks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 70d94ef..6d5b5df 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -175,9 +175,9 @@ class MemoryBank(Callback):
 class CountEpochs(Callback):
     """Callback to count the number of epochs."""
 
-    def on_train_begin(self, *args, **kwargs):
+    def on_train_begin(self, net, **kwargs):
         """Initialize the epoch counter."""
-        self.n_epochs = 0
+        net.criterion__adapt_criterion.n_epochs = 0
 
     def on_epoch_begin(self, net, **kwargs):
         """Increment the number of epochs."""
-- 
2.43.0


From 2a7dac96bf95ae5ba783d63c8110ed82ef242857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 050/110] fix: use a sigmoid for the single output of
 DomainClassifier instead of a constant softmax

---
 skada/deep/modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/modules.py b/skada/deep/modules.py
index 3563d1a..423cc43 100644
--- a/skada/deep/modules.py
+++ b/skada/deep/modules.py
@@ -178,7 +178,7 @@ class DomainClassifier(nn.Module):
             nn.BatchNorm1d(100),
             nn.ReLU(),
             nn.Linear(100, n_classes),
-            nn.Softmax(),
+            nn.Sigmoid() if n_classes == 1 else nn.Softmax(dim=1),
         )
         self.alpha = alpha
 
-- 
2.43.0


From a859355b121ffefdcb4c46194340518e1e042823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 051/110] fix: gather the probability of each sample's own
 class in ModifiedCrossEntropyLoss

---
 skada/deep/_adversarial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index 88d462b..dfc3156 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -411,7 +411,7 @@ class ModifiedCrossEntropyLoss(torch.nn.Module):
         smooth_prob = (1 - self.smoothing) * prob + self.smoothing / num_classes
 
         # Gather probabilities of the target classes
-        target_prob = smooth_prob[..., target]
+        target_prob = smooth_prob.gather(-1, target.unsqueeze(-1)).squeeze(-1)
 
         # Compute log(1 - probability) for the target class
         log_one_minus_prob = torch.log(1 - target_prob)
-- 
2.43.0


From 0341c51bc7421feb973018ca106a814a4867a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 052/110] fix: check_generator returns a new generator instead
 of reseeding the global one

---
 skada/deep/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index bc39d66..8a8cd37 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -52,9 +52,9 @@ def check_generator(seed):
         The generator object based on `seed` parameter.
     """
     if seed is None or seed is torch.random:
-        return torch.random.manual_seed(torch.Generator().seed())
+        return torch.random.default_generator
     if isinstance(seed, numbers.Integral):
-        return torch.random.manual_seed(seed)
+        return torch.Generator().manual_seed(int(seed))
     if isinstance(seed, torch.Generator):
         return seed
     raise ValueError(
-- 
2.43.0


From c6dc0c2245d4566467bf7778c3f54c24edb2b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 053/110] fix: every non-negative domain is a source in the
 weighted deep loss

---
 skada/deep/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 2162556..3bdf5ae 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -886,7 +886,7 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
 
         if "sample_weight" in X and X["sample_weight"] is not None:
             sample_weight = to_tensor(X["sample_weight"], device=self.device)
-            sample_weight = sample_weight[X["sample_domain"] > 0]
+            sample_weight = sample_weight[X["sample_domain"] >= 0]
             if loss.dim() == 0 and len(sample_weight) > 1:
                 raise ValueError(
                     "You are using a criterion function that returns a scalar loss value, but sample weights are provided."
-- 
2.43.0


From 938ed17703288d6df537bc62aec3ae5e36bef5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 054/110] fix: DomainAwareNet.score compares the target
 predictions with the target labels

---
 skada/deep/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 3bdf5ae..b6794cf 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -699,6 +699,12 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
         """
         X = self._prepare_input(X, y, sample_domain, sample_weight)
         if not allow_source:
+            # labels and weights of the kept samples only
+            target = to_numpy(X.sample_domain < 0)
+            if len(y) == len(target):
+                y = to_numpy(y)[target]
+            if sample_weight is not None and len(sample_weight) == len(target):
+                sample_weight = to_numpy(sample_weight)[target]
             X = X.select_target()
 
         return accuracy_score(
-- 
2.43.0


From 7f09af2da8c69def3a6346a166ab8b75cfaff507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 055/110] fix: DomainAwareNet accepts predict_nonlinearity=None

---
 skada/deep/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index b6794cf..fb69258 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -22,7 +22,7 @@ from sklearn.utils.validation import check_array
 
 import numpy as np
 from skorch.utils import to_device
-from skorch.utils import to_numpy, to_tensor
+from skorch.utils import _identity, to_numpy, to_tensor
 from skorch.dataset import unpack_data, Dataset
 from collections.abc import Mapping
 
-- 
2.43.0


From c2b171e7c907388eb3dcd3d2057a2e7acab97675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 056/110] fix: do not append to the callbacks list of the
 caller in CAN and SPA

---
 skada/deep/_divergence.py      | 2 +-
 skada/deep/_graph_alignment.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/skada/deep/_divergence.py b/skada/deep/_divergence.py
index c2fd04d..5860149 100644
--- a/skada/deep/_divergence.py
+++ b/skada/deep/_divergence.py
@@ -297,7 +297,7 @@ def CAN(
         callbacks = [ComputeSourceCentroids()]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(ComputeSourceCentroids())
+            callbacks = callbacks + [ComputeSourceCentroids()]
         else:
             callbacks = [callbacks, ComputeSourceCentroids()]
 
diff --git a/skada/deep/_graph_alignment.py b/skada/deep/_graph_alignment.py
index 1dcd463..73dc089 100644
--- a/skada/deep/_graph_alignment.py
+++ b/skada/deep/_graph_alignment.py
@@ -204,8 +204,7 @@ def SPA(
         ]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(MemoryBank())
-            callbacks.append(CountEpochs())
+            callbacks = callbacks + [MemoryBank(), CountEpochs()]
         else:
             callbacks = [
                 callbacks,
-- 
2.43.0


From 9790b8dbfb140f4ee0c965d0a8b3f94a080e653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 057/110] fix: SphericalKMeans honours random_state

---
 skada/deep/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index 8a8cd37..6a49170 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -160,11 +160,11 @@ class SphericalKMeans(BaseEstimator):
         self.random_state = random_state
         self.device = device
 
-    def _init_centroids(self, X):
+    def _init_centroids(self, X, generator=None):
         with torch.no_grad():
             # Randomly initialize centroids
             n_samples = X.shape[0]
-            indices = torch.randperm(n_samples, device=self.device)[:self.n_clusters]
+            indices = torch.randperm(n_samples, generator=generator)[:self.n_clusters].to(self.device)
             centroids = X[indices]
             return centroids / torch.norm(centroids, dim=1, keepdim=True)
 
@@ -198,8 +198,9 @@ class SphericalKMeans(BaseEstimator):
             best_n_iter = None
 
             if self.initial_centroids is None:
+                generator = check_generator(self.random_state)
                 for _ in range(self.n_init):
-                    initial_centroids = self._init_centroids(X)
+                    initial_centroids = self._init_centroids(X, generator)
                     inertia, centroids, n_iter = self._run_single_kmean(X, initial_centroids)
 
                     if best_inertia is None or inertia < best_inertia:
-- 
2.43.0


From 7eb19dc98fe44ac4748468f6524301168249285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 058/110] fix: CDANModule accepts sample weights like
 DomainAwareModule

---
 skada/deep/_adversarial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index dfc3156..797a6b4 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -245,13 +245,17 @@ class CDANModule(DomainAwareModule):
         self,
         X,
         sample_domain=None,
-        sample_idx=None,
+        sample_weight=None,
         is_fit=False,
         return_features=False,
+        sample_idx=None,
     ):
         if is_fit:
             # predict
-            y_pred = self.base_module_(X)
+            if sample_weight is not None:
+                y_pred = self.base_module_(X, sample_weight=sample_weight)
+            else:
+                y_pred = self.base_module_(X)
             features = self.intermediate_layers[self.layer_name]
 
             n_classes = y_pred.shape[1]
-- 
2.43.0


From 6a053f7f4737afeb9e6a7a051b84cbe5e832eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 059/110] fix: selecting on the weights of an unweighted
 DeepDADataset raises a ValueError

---
 skada/deep/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index fb69258..6dd299a 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1334,8 +1334,9 @@ class DeepDADataset(Dataset):
         elif on == "sample_domain":
             mask = condition(self.sample_domain)
         elif on == "sample_weight":
-            if self.has_weights:
-                mask = condition(self.sample_weight)
+            if not self.has_weights:
+                raise ValueError("The dataset has no weights to select on.")
+            mask = condition(self.sample_weight)
         else:
             raise ValueError(
                 "'on' argument must be one of "
-- 
2.43.0


From 8dbf3c390a072d21cc1cc61ee1d4b84b08fcb905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 060/110] fix: DeepDADataset.merge in place refreshes the
 per-domain sample indices

---
 skada/deep/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 6dd299a..114c970 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1148,6 +1148,7 @@ class DeepDADataset(Dataset):
                     f"no label, it must be represented by {_NO_LABEL_}) and, "
                     "optionally, a weight."
                 )
+                self._sample_idx = self._infer_sample_idx()
         else:
             raise TypeError("Can only merge two instances of DeepDADataset")
 
-- 
2.43.0


From d14e9880ece859d1333d9a9c7eb1908bbd06d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 061/110] fix: weight the target loss with the target weights
 when training on target

---
 skada/deep/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 114c970..4e6d5c4 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -892,7 +892,10 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
 
         if "sample_weight" in X and X["sample_weight"] is not None:
             sample_weight = to_tensor(X["sample_weight"], device=self.device)
-            sample_weight = sample_weight[X["sample_domain"] >= 0]
+            if self.criterion_.train_on_target:
+                sample_weight = sample_weight[X["sample_domain"] < 0]
+            else:
+                sample_weight = sample_weight[X["sample_domain"] >= 0]
             if loss.dim() == 0 and len(sample_weight) > 1:
                 raise ValueError(
                     "You are using a criterion function that returns a scalar loss value, but sample weights are provided."
-- 
2.43.0


From 9184c5962cdd551e118101ec28c99e8de7e4b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 062/110] fix: restrict the kernels of the contrastive domain
 discrepancy to the pairs of each class

---
 skada/deep/losses.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 98c70c4..105a6d5 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -288,36 +288,36 @@ def cdd_loss(
             if valid_classes[c1] and valid_classes[c2]:
                 # Compute e1
                 kernel_ss = _gaussian_kernel(features_s, features_s, sigmas)
-                mask_c1_c1 = (y_s == c1).float()
+                mask_c1 = (y_s == c1).float()
+                mask_c1_c1 = mask_c1.unsqueeze(1) * mask_c1.unsqueeze(0)
 
                 # e1 measure the intra-class domain discrepancy
                 # Thus if mask_c1_c1.sum() = 0 --> e1 = 0
                 if mask_c1_c1.sum() > 0:
-                    e1 = (kernel_ss * mask_c1_c1).sum() / (mask_c1_c1.sum() ** 2)
+                    e1 = (kernel_ss * mask_c1_c1).sum() / mask_c1_c1.sum()
                 else:
                     e1 = 0
 
                 # Compute e2
                 kernel_tt = _gaussian_kernel(features_t, features_t, sigmas)
-                mask_c2_c2 = (cluster_labels_t == c2).float()
+                mask_c2 = (cluster_labels_t == c2).float()
+                mask_c2_c2 = mask_c2.unsqueeze(1) * mask_c2.unsqueeze(0)
 
                 # e2 measure the intra-class domain discrepancy
                 # Thus if mask_c2_c2.sum() = 0 --> e2 = 0
                 if mask_c2_c2.sum() > 0:
-                    e2 = (kernel_tt * mask_c2_c2).sum() / (mask_c2_c2.sum() ** 2)
+                    e2 = (kernel_tt * mask_c2_c2).sum() / mask_c2_c2.sum()
                 else:
                     e2 = 0
 
                 # Compute e3
                 kernel_st = _gaussian_kernel(features_s, features_t, sigmas)
-                mask_c1 = (y_s == c1).float().unsqueeze(1)
-                mask_c2 = (cluster_labels_t == c2).float().unsqueeze(0)
-                mask_c1_c2 = mask_c1 * mask_c2
+                mask_c1_c2 = mask_c1.unsqueeze(1) * mask_c2.unsqueeze(0)
 
                 # e3 measure the inter-class domain discrepancy
                 # Thus if mask_c1_c2.sum() = 0 --> e3 = 0
                 if mask_c1_c2.sum() > 0:
-                    e3 = (kernel_st * mask_c1_c2).sum() / (mask_c1_c2.sum() ** 2)
+                    e3 = (kernel_st * mask_c1_c2).sum() / mask_c1_c2.sum()
                 else:
                     e3 = 0
 
-- 
2.43.0


From 81bf8e4829318325f9bfdf836726f637b57e6c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 063/110] fix: sum the contrastive domain discrepancy over
 every ordered pair of classes

---
 skada/deep/losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 105a6d5..377041d 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -284,7 +284,7 @@ def cdd_loss(
     intraclass = 0
     interclass = 0
     for c1 in range(n_classes):
-        for c2 in range(c1, n_classes):
+        for c2 in range(n_classes):
             if valid_classes[c1] and valid_classes[c2]:
                 # Compute e1
                 kernel_ss = _gaussian_kernel(features_s, features_s, sigmas)
-- 
2.43.0


From 12972d109188a622deca90359a067fa0ac243d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 064/110] fix: use the classes of the clustering in the
 contrastive domain discrepancy

---
 skada/deep/losses.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 377041d..a29e008 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -240,8 +240,6 @@ def cdd_loss(
            In Proceedings of the IEEE/CVF Conference on Computer Vision
            and Pattern Recognition (pp. 4893-4902).
     """
-    n_classes = len(y_s.unique())
-
     # Use pre-computed target_kmeans
     if type(target_kmeans) is not SphericalKMeans:
         raise ValueError(
@@ -249,6 +247,9 @@ def cdd_loss(
             "A fitted SphericalKMeans should be provided."
         )
 
+    # a batch may miss some of the classes
+    n_classes = len(target_kmeans.cluster_centers_)
+
     # Predict clusters for target samples
     cluster_labels_t = target_kmeans.predict(features_t)
 
-- 
2.43.0


From b59460b4714d72740bed588d6ae03d5727fccfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 065/110] fix: fit the backward estimator of CircularValidation
 on the encoded labels' dtype

---
 skada/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 780b81a..2eb5d51 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -629,7 +629,8 @@ class CircularValidation(_BaseDomainAwareScorer):
 
             backward_sample_domain = -sample_domain
 
-            backward_y = np.zeros_like(y)
+            # the dtype of the predictions, as y may not be able to hold them
+            backward_y = np.zeros(y.shape, dtype=np.asarray(y_pred_target).dtype)
             backward_y[~source_idx] = y_pred_target
 
             if y_type == Y_Type.DISCRETE:
-- 
2.43.0


From 052012a2b4c299b421703c17daafe87e50fd8e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 066/110] fix: keep mask_target_labels so that
 SelectSourceTarget can be cloned and printed

---
 skada/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/base.py b/skada/base.py
index 9b38fb9..00775cb 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -628,6 +628,7 @@ class SelectSourceTarget(BaseSelector):
         
         self.source_estimator = source_estimator
         self.target_estimator = target_estimator
+        self.mask_target_labels = mask_target_labels
         # xxx(okachaiev): the fact that we need to put those variables
         # here means that the choice of the base class is suboptimal
         self._is_final = False
-- 
2.43.0


From 94859cbafdaa8db91029f6141ff6447a3e2a5315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 067/110] fix: keep the labels of the container when a
 per-domain adapter does not change them

---
 skada/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index 00775cb..9962105 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -182,7 +182,9 @@ class MetadataContainer:
             X, y, params = X_container
             assert isinstance(params, dict)
             self._features = X
-            self._labels = y
+            # keep the current labels when the output does not come with labels
+            if y is not None:
+                self._labels = y
             self._metadata.update(params)
         elif isinstance(X_container, np.ndarray):
             self._features = X_container
-- 
2.43.0


From 1aad5c907b7e3163bd9831fc1ffaafef20d22aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 068/110] fix: keep the JDOT classification cost finite when a
 probability underflows to zero

---
 skada/_ot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 911e3f6..b03fe9b 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -56,7 +56,8 @@ def get_jdot_class_cost_matrix(Ys, Xt, estimator=None, metric="multinomial"):
 
     if metric == "multinomial":
         if hasattr(estimator, "predict_log_proba"):
-            Yt_pred = estimator.predict_log_proba(Xt)
+            # probabilities that underflow to 0 would give 0 * -inf = nan
+            Yt_pred = np.maximum(estimator.predict_log_proba(Xt), np.log(1e-16))
             M = -np.sum(Ys[:, None, :] * Yt_pred[None, :, :], 2)
         elif hasattr(estimator, "predict_proba"):
             Yt_pred = estimator.predict_proba(Xt)
@@ -167,7 +168,7 @@ def get_tgt_loss_jdot_class(Xh, yh, wh, estimator, metric="multinomial"):
     """
     if metric == "multinomial":
         if hasattr(estimator, "predict_log_proba"):
-            Yh_pred = estimator.predict_log_proba(Xh)
+            Yh_pred = np.maximum(estimator.predict_log_proba(Xh), np.log(1e-16))
             loss = -np.sum(yh * Yh_pred, 1).dot(wh)
         elif hasattr(estimator, "predict_proba"):
             Yh_pred = estimator.predict_proba(Xh)
-- 
2.43.0


From 029b387c3a7e27f1870c6a64e4bbbed85b251ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 069/110] fix: let GradualEstimator use base estimators without
 max_iter

---
 skada/_gradual_da.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 97c15a8..db0d9b0 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -140,7 +140,8 @@ class GradualEstimator(DAEstimator):
             X_step, y_step = self.generate_data_at_step(
                 X, sample_domain, mask_gamma, step
             )
-            self.base_estimator_.max_iter += 100
+            if hasattr(self.base_estimator_, "max_iter"):
+                self.base_estimator_.max_iter += 100
             self.base_estimator_.fit(X_step, y_step)
             if self.save_estimators:
                 self.estimators_.append(deepcopy(self.base_estimator_))
-- 
2.43.0


From b448e493dedc6f0a84fa95a5fff614a6bbd8913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 070/110] fix: keep the fit arguments of JDOT estimators when
 they are cloned

---
 skada/_ot.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/skada/_ot.py b/skada/_ot.py
index b03fe9b..7a91bfd 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -571,6 +571,12 @@ class JDOTRegressor(DAEstimator):
         self.tol = tol
         self.verbose = verbose
 
+    def __sklearn_clone__(self):
+        estimator = super().__sklearn_clone__()
+        # the arguments for `fit` are not a part of the parameters
+        estimator.kwargs = clone(self.kwargs, safe=False)
+        return estimator
+
     def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
         """Fit adaptation parameters"""
         Xs, Xt, ys, yt, ws, wt = source_target_split(
@@ -701,6 +707,12 @@ class JDOTClassifier(DAEstimator):
         self.verbose = verbose
         self.thr_weights = thr_weights
 
+    def __sklearn_clone__(self):
+        estimator = super().__sklearn_clone__()
+        # the arguments for `fit` are not a part of the parameters
+        estimator.kwargs = clone(self.kwargs, safe=False)
+        return estimator
+
     def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
         """Fit adaptation parameters"""
         Xs, Xt, ys, yt, ws, wt = source_target_split(
-- 
2.43.0


From 568ed09b1f5abcd520c3697b3667306efb2f3322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 071/110] fix: accept unlabelled domains in the
 DomainAwareDataset constructor

---
 skada/datasets/_base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index d8dabb1..5a8484a 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -112,13 +112,21 @@ class DomainAwareDataset:
         # xxx(okachaiev): there should be a simpler way for adding those
         if domains is not None:
             if isinstance(domains, Mapping):
-                domains = [(*d, name) for name, d in domains.items()]
+                domains = [
+                    (*d, name) if len(d) == 2 else (*d, None, name)
+                    for name, d in domains.items()
+                ]
             for d in domains:
-                if len(d) == 2:
+                if len(d) == 1:
+                    (X,) = d
+                    y, domain_name = None, None
+                elif len(d) == 2:
                     X, y = d
                     domain_name = None
                 elif len(d) == 3:
                     X, y, domain_name = d
+                else:
+                    raise ValueError("Invalid definition for domain data")
                 self.add_domain(X, y=y, domain_name=domain_name)
 
     def add_domain(
-- 
2.43.0


From b5110d51d08c3e2200ac761c0ce4bd8cfb9b9b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 072/110] fix: use scalar regression parameters in the subspace
 shift as documented

---
 skada/datasets/_samples_generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index 3ff507d..7fb9c1f 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -493,11 +493,14 @@ def make_shifted_datasets(
             Pattern recognition, 45(1):521-530.
     """
     rng = check_random_state(random_state)
+    # the regression parameters of the subspace shift are scalars,
+    # its source is generated below
+    is_subspace = shift == "subspace"
     X_source, y_source = _generate_data_2d_classif(
         n_samples_source,
         rng,
-        mu_regression,
-        sigma_regression,
+        None if is_subspace else mu_regression,
+        None if is_subspace else sigma_regression,
         regression_scaling_constant,
         label,
     )
-- 
2.43.0


From 28fadb3ae1737b23964fafa0fa64cdf64c19bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 073/110] fix: SupervisedScorer passes the domain labels to the
 estimators that use them

---
 skada/metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 2eb5d51..24bcb15 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -34,7 +34,11 @@ from ._utils import (
 from .utils import check_X_y_domain, extract_source_indices, source_target_split
 
 
-def _estimator_score(estimator, X, y=None, **kwargs):
+def _estimator_score(estimator, X, y=None, sample_domain=None, **kwargs):
+    # pass the domain labels on to the estimators that make use of them
+    request = get_routing_for_object(estimator)
+    if sample_domain is not None and request.consumes("score", ["sample_domain"]):
+        return estimator.score(X, y, sample_domain=sample_domain)
     return estimator.score(X, y)
 
 
-- 
2.43.0


From 16a8bad1ae0a0eb2aa840ef7a420fb3d8688fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 074/110] fix: keep the sample_domain request of
 SupervisedScorer

---
 skada/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 24bcb15..370541c 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -76,7 +76,8 @@ class SupervisedScorer(_BaseDomainAwareScorer):
         super().__init__(
             score_func=scoring, sign=1 if greater_is_better else -1, kwargs=kwargs
         )
-        self.set_score_request(target_labels=True)
+        # a scorer holds a single request: set both at once
+        self.set_score_request(sample_domain=True, target_labels=True)
 
     def _score(
         self, _, estimator, X, y=None, sample_domain=None, target_labels=None, **params
-- 
2.43.0


From ff03df27050a27264d71864ac293ce38792c8ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 075/110] fix: evaluate deep models in evaluation mode in
 MaNoScorer

---
 skada/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 370541c..1ca26ea 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -878,7 +878,9 @@ class MaNoScorer(_BaseDomainAwareScorer):
             if estimator.module_.layer_name is None:
                 raise ValueError("The layer_name of the estimator is not set.")
 
-            # 1) Recover logits on target
+            # 1) Recover logits on target, as for predictions: after a fit the
+            # module is still in training mode (dropout, batch statistics)
+            estimator.module_.eval()
             logits = estimator.infer(X[~source_idx], **params).cpu().detach().numpy()
 
             # 2) Normalize logits to obtain probabilities
-- 
2.43.0


From edd5ef4ed8d541450fb01c7bbcd56f95ce3a92a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 076/110] fix: KLIEP accepts arrays of kernel parameters as
 documented

---
 skada/_reweight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index b482e65..1959bf3 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -484,7 +484,7 @@ class KLIEPReweightAdapter(BaseReweightAdapter):
         )
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
 
-        if isinstance(self.gamma, list):
+        if isinstance(self.gamma, (list, tuple, np.ndarray)):
             gammas = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
             self.best_gamma_ = self._likelihood_cross_validation(
                 gammas, X_source, X_target
-- 
2.43.0


From 89b2b4fc07df8be89f0da188d422f082a49f5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 077/110] fix: map integer inputs in floating point in OT
 mapping and CORAL adapters

---
 skada/_mapping.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index 7bdaf09..ddc7570 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -28,6 +28,11 @@ from .utils import (
 )
 
 
+def _as_floating(X):
+    """Converts integers, whose arithmetic overflows, to floating point numbers."""
+    return X if np.issubdtype(X.dtype, np.floating) else X.astype(np.float64)
+
+
 class BaseOTMappingAdapter(BaseAdapter):
     """Base class for all DA estimators implemented using OT mapping.
 
@@ -53,6 +58,7 @@ class BaseOTMappingAdapter(BaseAdapter):
             Returns self.
         """
         X, sample_domain = check_X_domain(X, sample_domain)
+        X = _as_floating(X)
         X, X_target, y, y_target = source_target_split(
             X, y, sample_domain=sample_domain
         )
@@ -92,6 +98,7 @@ class BaseOTMappingAdapter(BaseAdapter):
             allow_multi_source=True,
             allow_multi_target=True,
         )
+        X = _as_floating(X)
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
         # in case of prediction we would get only target samples here,
         # thus there's no need to perform any transformations
@@ -870,6 +877,7 @@ class CORALAdapter(BaseAdapter):
         X, sample_domain = check_X_domain(
             X, sample_domain, allow_multi_source=True, allow_multi_target=True
         )
+        X = _as_floating(X)
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
 
         self.mean_source_ = np.mean(X_source, axis=0)
-- 
2.43.0


From 700ff70c540c403a63b4148ab125b645fe57df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 078/110] fix: solve the well-conditioned eigenproblem in
 TransferJointMatching

---
 skada/_subspace.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 6f3bef6..b9a06ad 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -605,10 +605,13 @@ class TransferJointMatchingAdapter(BaseAdapter):
             C = K @ H @ K.T
             B = B + EPS_eigval * np.identity(n)
             C = C + EPS_eigval * np.identity(n)
-            phi, A = scipy.linalg.eigh(B, C)
-            phi = phi + EPS_eigval
-            indices = np.argsort(phi)[:n_components]
-            phi, A = phi[indices], A[:, indices]
+            # `C` is nearly singular, unlike `B`: solve `C A = B A / phi` instead
+            inv_phi, A = scipy.linalg.eigh(C, B)
+            indices = np.argsort(inv_phi)[::-1][:n_components]
+            phi = 1 / np.maximum(inv_phi[indices], EPS_eigval)
+            A = A[:, indices]
+            # scale the components such that `A.T @ C @ A` is the identity
+            A = A * np.sqrt(phi)
             error_eigv = np.linalg.norm(B @ A - C @ A @ np.diag(phi))
             if error_eigv > 1e-5:
                 warnings.warn(
-- 
2.43.0


From 16e89683450477f3576ba3872525e153471fe71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:28 +0000
Subject: [PATCH 079/110] fix: never return negative weights from MMDTarS and
 KMM reweighting

---
 skada/_reweight.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 1959bf3..906ee73 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -1101,7 +1101,8 @@ class KMMReweightAdapter(BaseReweightAdapter):
             solver=self.solver,
         )
 
-        weights = np.array(weights).ravel()
+        # the solver satisfies the constraints up to its tolerance
+        weights = np.maximum(np.array(weights).ravel(), 0)
         return weights
 
     def compute_weights(self, X, y=None, *, sample_domain=None, **params):
@@ -1360,8 +1361,8 @@ class MMDTarSReweightAdapter(BaseReweightAdapter):
                 source_weights = self.source_weights_[idx]
         source_idx = np.where(source_idx)
         weights = np.zeros(X.shape[0], dtype=source_weights.dtype)
-        weights[source_idx] = source_weights
-        weights += 1e-13  # avoid negative weights
+        # the solver satisfies the constraints up to its tolerance
+        weights[source_idx] = np.maximum(source_weights, 1e-13)
         return weights
 
 
-- 
2.43.0


From 3387b01b9efaee4803413704fe461024c8d17cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 080/110] fix: Frank-Wolfe solver with a negated or loosely
 bounded linear constraint

---
 skada/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/skada/utils.py b/skada/utils.py
index c3906fb..50e7cf4 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -948,6 +948,17 @@ def frank_wolfe(jac, c, clb=1., cub=1., x0=None, max_iter=1000):
     x: (d,) ndarray
         Optimal solution x
     """
+    if np.all(c < 0):
+        # the same constraint, written with positive coefficients
+        c, clb, cub = -c, -cub, -clb
+    if not np.all(c > 0):
+        raise ValueError("All the coefficients of the linear constraint must"
+                         " be non-zero and have the same sign.")
+    # x and c are non-negative, so is their product
+    clb = max(clb, 0.)
+    if cub < clb:
+        raise ValueError("The constraints are infeasible.")
+
     inv_c = 1. / c
 
     if x0 is None:
-- 
2.43.0


From 89bce5695242e6a3795cc2211681703cbb248790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 081/110] fix: DeepDADataset accepts a single integer domain

---
 skada/deep/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 4e6d5c4..9de3807 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1050,7 +1050,9 @@ class DeepDADataset(Dataset):
         self._initialize(X, y, sample_domain, sample_weight)
 
     def _initialize(self, X: torch.Tensor, y, sample_domain, sample_weight):
-        if sample_domain is None or len(sample_domain) == 0:
+        if sample_domain is None or (
+            not isinstance(sample_domain, int) and len(sample_domain) == 0
+        ):
             sample_domain = _DEFAULT_SAMPLE_DOMAIN_
         if isinstance(sample_domain, int):
             sample_domain = torch.full((X.shape[0],), sample_domain)
-- 
2.43.0


From 87624edde7dc3d0886ea4c089f6edacff8bb3c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 082/110] fix: copying a DeepDADataset keeps the type of its
 data

---
 skada/deep/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 9de3807..a3626de 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1131,7 +1131,12 @@ class DeepDADataset(Dataset):
           raises if the other dataset is not a DeepDADataset instance.
         """
         if isinstance(dataset, DeepDADataset):
-            X = torch.cat((self.X, dataset.X))
+            X = (self.X, dataset.X)
+            if self.is_empty() or dataset.is_empty():
+                # an empty dataset doesn't change the type of the other one
+                dtype = (dataset if self.is_empty() else self).X.dtype
+                X = tuple(data.to(dtype) for data in X)
+            X = torch.cat(X)
             y = torch.cat((self.y, dataset.y))
             sample_domain = torch.cat((self.sample_domain, dataset.sample_domain))
             if keep_weights:
-- 
2.43.0


From 2376cad9c9b579a650044214cd3f60e6d8ed2364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 083/110] fix: refused weights leave a DeepDADataset unchanged

---
 skada/deep/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index a3626de..9e9e759 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1486,9 +1486,13 @@ class DeepDADataset(Dataset):
             ensure_min_samples=False,
             dtype=float,
         )
+        # checked first, so that a refused call leaves the dataset as it was
+        assert sample_weight.shape in (
+            (len(self.X),),
+            (0,),
+        ), "There must be a weight for every sample."
         self.sample_weight = to_tensor(sample_weight, device=self.device)
         self.has_weights = bool(len(self.sample_weight))
-        assert self._is_correct(), "There must be a weight for every sample."
         return self
 
     def remove_weights(self):
-- 
2.43.0


From df8cf8dabb2a4e6a5c551dce54a0f97515f435bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:02 +0000
Subject: [PATCH 084/110] fix: compare target samples with the centroids along
 the features in cdd_loss

---
 skada/deep/losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index a29e008..2c4ac52 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -255,7 +255,7 @@ def cdd_loss(
 
     # Discard ambiguous target samples
     similarities = F.cosine_similarity(
-        features_t.unsqueeze(1), target_kmeans.cluster_centers_.unsqueeze(0)
+        features_t.unsqueeze(1), target_kmeans.cluster_centers_.unsqueeze(0), dim=2
     )
     mask_t = 0.5 * (1 - similarities.max(dim=1)[0]) < distance_threshold
     features_t = features_t[mask_t]
-- 
2.43.0


From 4e800a4c54db854100f47e3b0cddf5594287e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 085/110] fix: split and merge helpers take array-likes and
 select rows by position

---
 skada/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 50e7cf4..9644c2a 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -9,7 +9,7 @@ from typing import Optional, Sequence, Set
 
 import numpy as np
 from scipy.optimize import LinearConstraint, minimize
-from sklearn.utils import check_array, check_consistent_length
+from sklearn.utils import _safe_indexing, check_array, check_consistent_length
 
 from skada._utils import (
     _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL,
@@ -331,7 +331,8 @@ def source_target_split(
     source_idx = extract_source_indices(sample_domain)
 
     return list(chain.from_iterable(
-        (a[source_idx], a[~source_idx]) if a is not None else (None, None)
+        (_safe_indexing(a, source_idx), _safe_indexing(a, ~source_idx))
+        if a is not None else (None, None)
         for a in arrays
     ))
 
@@ -372,12 +373,12 @@ def per_domain_split(
     for domain, idx in domain_idx.items():
         if domain >= 0:
             source_dict[domain] = list(chain.from_iterable(
-                (a[idx],) if a is not None else (None,)
+                (_safe_indexing(a, idx),) if a is not None else (None,)
                 for a in arrays
             ))
         else:
             target_dict[domain] = list(chain.from_iterable(
-                (a[idx],) if a is not None else (None,)
+                (_safe_indexing(a, idx),) if a is not None else (None,)
                 for a in arrays
             ))
 
@@ -445,7 +446,10 @@ def source_target_merge(
     array([ 0,  1,  1, {_DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL}, {_DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL}])
     """
 
-    arrays = list(arrays)   # Convert to list to be able to modify it
+    # Convert to list to be able to modify it
+    arrays = [None if a is None else np.asarray(a) for a in arrays]
+    if sample_domain is not None:
+        sample_domain = np.asarray(sample_domain)
 
     # ################ Check *arrays #################
     if len(arrays) < 2:
-- 
2.43.0


From f9b275d393ff984ff719030c8ab3bb6688ed27d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 086/110] fix: selectors select the rows of array-likes by
 position

---
 skada/_utils.py | 12 ++++++++----
 skada/base.py   | 27 +++++++++++++++------------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index bef0ee3..46ad4a4 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -16,7 +16,7 @@ from sklearn.covariance import (
     shrunk_covariance,
 )
 from sklearn.preprocessing import StandardScaler
-from sklearn.utils import check_random_state
+from sklearn.utils import _safe_indexing, check_random_state
 from sklearn.utils.multiclass import type_of_target
 
 _logger = logging.getLogger("skada")
@@ -104,6 +104,7 @@ def _find_y_type(y):
     y_type : str
         Type of labels between 'continuous' and 'classification'
     """
+    y = np.asarray(y)
     # We need to check for this case first because
     # type_of_target() doesn't handle nan values
     if np.any(np.isnan(y)):
@@ -128,11 +129,13 @@ def _find_y_type(y):
 
 
 def _apply_domain_masks(X, y, params, masks):
-    X = X[masks]
+    X = _safe_indexing(X, masks)
     if y is not None:
-        y = y[masks]
+        y = _safe_indexing(y, masks)
     params = {
-        k: v[masks] if (hasattr(v, "__len__") and len(v) == len(masks)) else v
+        k: _safe_indexing(v, masks)
+        if (hasattr(v, "__len__") and len(v) == len(masks))
+        else v
         for k, v in params.items()
     }
     return X, y, params
@@ -161,6 +164,7 @@ def _remove_masked(X, y, params):
     params : dict
         Additional parameters declared in the routing
     """
+    y = np.asarray(y)
     y_type = _find_y_type(y)
     if y_type == Y_Type.DISCRETE:
         unmasked_idx = y != _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL
diff --git a/skada/base.py b/skada/base.py
index 9962105..8ea979e 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -11,6 +11,7 @@ from typing import Any, Dict, Iterator, Literal, Optional, Tuple
 import numpy as np
 from sklearn.base import BaseEstimator, clone
 from sklearn.exceptions import UnsetMetadataPassedError
+from sklearn.utils import _safe_indexing
 from sklearn.utils.metadata_routing import (
     MetadataRouter,
     MethodMapping,
@@ -18,7 +19,7 @@ from sklearn.utils.metadata_routing import (
     get_routing_for_object,
 )
 from sklearn.utils.metaestimators import available_if
-from sklearn.utils.validation import check_is_fitted
+from sklearn.utils.validation import _num_samples, check_is_fitted
 
 from skada._utils import (
     _apply_domain_masks,
@@ -201,7 +202,7 @@ class MetadataContainer:
         return self._metadata.items()
 
     def __len__(self):
-        return self._features.shape[0]
+        return _num_samples(self._features)
 
 
 class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
@@ -481,7 +482,7 @@ class PerDomain(BaseSelector):
             y = self._auto_mask_target_labels(y, params)
 
         X, y, params = X_container.merge_out(y, **params)
-        sample_domain = params['sample_domain']
+        sample_domain = np.asarray(params['sample_domain'])
         routing = get_routing_for_object(self.base_estimator)
         routing_request = getattr(routing, method_name)
         routed_params = self._prepare_routing(routing_request, X_container, params)
@@ -495,9 +496,9 @@ class PerDomain(BaseSelector):
             idx, = np.where(sample_domain == domain_label)
             estimator = clone(self.base_estimator)
             outputs[domain_label] = (idx, getattr(estimator, method_name)(
-                X[idx],
-                y[idx] if y is not None else None,
-                **{k: v[idx] for k, v in routed_params.items()}
+                _safe_indexing(X, idx),
+                _safe_indexing(y, idx) if y is not None else None,
+                **{k: _safe_indexing(v, idx) for k, v in routed_params.items()}
             ))
             estimators[domain_label] = estimator
         self.estimators_ = estimators
@@ -525,7 +526,7 @@ class PerDomain(BaseSelector):
         request = getattr(self.routing_, method_name)
         routed_params = self._prepare_routing(request, {}, params)
         # xxx(okachaiev): use check_*_domain to derive default domain labels
-        sample_domain = params['sample_domain']
+        sample_domain = np.asarray(params['sample_domain'])
         domain_outputs = {}
         # test if default target domain and unique target during fit and replace label
         for domain_label in np.unique(sample_domain):
@@ -538,15 +539,17 @@ class PerDomain(BaseSelector):
                     "fitted estimators."
                 )
             idx, = np.where(sample_domain == domain_label)
-            X_domain = X[idx]
-            y_domain = y[idx] if y is not None else None
-            domain_params = {k: v[idx] for k, v in routed_params.items()}
+            X_domain = _safe_indexing(X, idx)
+            y_domain = _safe_indexing(y, idx) if y is not None else None
+            domain_params = {
+                k: _safe_indexing(v, idx) for k, v in routed_params.items()
+            }
             if y is None:
                 domain_output = method(X_domain, **domain_params)
             else:
                 domain_output = method(X_domain, y_domain, **domain_params)
             domain_outputs[domain_label] = (idx, domain_output)
-        return _merge_domain_outputs(X.shape[0], domain_outputs)
+        return _merge_domain_outputs(_num_samples(X), domain_outputs)
 
 
 class _BaseSelectDomain(Shared):
@@ -777,7 +780,7 @@ class SelectSourceTarget(BaseSelector):
                 domain_output = method(X_domain, y_domain, **routed_params)
             assert isinstance(domain_output, np.ndarray)
             outputs[domain_label] = (domain_masks, domain_output)
-        return _merge_domain_outputs(X.shape[0], outputs)
+        return _merge_domain_outputs(_num_samples(X), outputs)
 
     @available_if(_estimator_has('transform', base_attr_name='source_estimator'))
     def transform(self, X, **params):
-- 
2.43.0


From 4be388093d18b1e81297201b91a706d49d3c2e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 087/110] fix: resampling steps select the rows of array-like
 weights by position

---
 skada/transformers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skada/transformers.py b/skada/transformers.py
index f7be92f..59806f5 100644
--- a/skada/transformers.py
+++ b/skada/transformers.py
@@ -3,7 +3,7 @@
 # License: BSD 3-Clause
 
 from sklearn.model_selection import ShuffleSplit, StratifiedShuffleSplit
-from sklearn.utils import check_random_state
+from sklearn.utils import _safe_indexing, check_random_state
 
 from .base import BaseAdapter
 from .model_selection import StratifiedDomainShuffleSplit
@@ -36,7 +36,7 @@ class Subsampler(BaseAdapter):
 
     def _pack_params(self, idx, **params):
         return {
-            k: (v[idx] if idx is not None else v)
+            k: (_safe_indexing(v, idx) if idx is not None else v)
             for k, v in params.items()
             if v is not None
         }
@@ -101,7 +101,7 @@ class DomainSubsampler(BaseAdapter):
 
     def _pack_params(self, idx, **params):
         return {
-            k: (v[idx] if idx is not None else v)
+            k: (_safe_indexing(v, idx) if idx is not None else v)
             for k, v in params.items()
             if v is not None
         }
@@ -164,7 +164,7 @@ class StratifiedDomainSubsampler(BaseAdapter):
 
     def _pack_params(self, idx, **params):
         return {
-            k: (v[idx] if idx is not None else v)
+            k: (_safe_indexing(v, idx) if idx is not None else v)
             for k, v in params.items()
             if v is not None
         }
-- 
2.43.0


From 75d2d5ed4c7fb4474670e670108ae1edb81fc404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 088/110] fix: methods reading labels accept any array-like

---
 skada/_gradual_da.py    |  2 ++
 skada/_mapping.py       |  6 +++---
 skada/_ot.py            | 17 ++++++++++++-----
 skada/_reweight.py      |  2 +-
 skada/_self_labeling.py |  2 +-
 skada/_subspace.py      |  2 +-
 6 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index db0d9b0..f7e6337 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -105,6 +105,8 @@ class GradualEstimator(DAEstimator):
         self : object
             Returns self.
         """
+        X, y = np.asarray(X), np.asarray(y)
+        sample_domain = np.asarray(sample_domain)
         self.estimators_ = []
         source = sample_domain >= 0
         target = sample_domain < 0
diff --git a/skada/_mapping.py b/skada/_mapping.py
index ddc7570..c27cde3 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -60,7 +60,7 @@ class BaseOTMappingAdapter(BaseAdapter):
         X, sample_domain = check_X_domain(X, sample_domain)
         X = _as_floating(X)
         X, X_target, y, y_target = source_target_split(
-            X, y, sample_domain=sample_domain
+            X, np.asarray(y) if y is not None else None, sample_domain=sample_domain
         )
         transport = self._create_transport_estimator()
         self.ot_transport_ = clone(transport)
@@ -1134,7 +1134,7 @@ class MMDLSConSMappingAdapter(BaseAdapter):
         # argument of a checker
         X, sample_domain = check_X_domain(X, sample_domain)
         X_source, X_target, y_source, _ = source_target_split(
-            X, y, sample_domain=sample_domain
+            X, np.asarray(y), sample_domain=sample_domain
         )
         self.X_source_ = X_source
 
@@ -1181,7 +1181,7 @@ class MMDLSConSMappingAdapter(BaseAdapter):
                     # recompute the mapping
                     X, sample_domain = check_X_domain(X, sample_domain)
                     source_idx = extract_source_indices(sample_domain)
-                    y_source = y[source_idx]
+                    y_source = np.asarray(y)[source_idx]
                     classes = self.classes_
                     R = np.zeros((source_idx.sum(), len(classes)))
                     for i, c in enumerate(classes):
diff --git a/skada/_ot.py b/skada/_ot.py
index 7a91bfd..eb88848 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -579,6 +579,9 @@ class JDOTRegressor(DAEstimator):
 
     def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
         """Fit adaptation parameters"""
+        X, y = np.asarray(X), np.asarray(y)
+        if sample_weight is not None:
+            sample_weight = np.asarray(sample_weight)
         Xs, Xt, ys, yt, ws, wt = source_target_split(
             X, y, sample_weight, sample_domain=sample_domain
         )
@@ -604,7 +607,7 @@ class JDOTRegressor(DAEstimator):
     def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
         check_is_fitted(self)
-        if sample_domain is not None and np.any(sample_domain >= 0):
+        if sample_domain is not None and np.any(np.asarray(sample_domain) >= 0):
             warnings.warn(
                 "Source domain detected. Predictor is trained on target"
                 "and prediction might be biased."
@@ -614,7 +617,7 @@ class JDOTRegressor(DAEstimator):
     def score(self, X, y, sample_domain=None, *, sample_weight=None):
         """Return the coefficient of determination R^2 of the prediction"""
         check_is_fitted(self)
-        if sample_domain is not None and np.any(sample_domain >= 0):
+        if sample_domain is not None and np.any(np.asarray(sample_domain) >= 0):
             warnings.warn(
                 "Source domain detected. Predictor is trained on target"
                 "and score might be biased."
@@ -715,6 +718,9 @@ class JDOTClassifier(DAEstimator):
 
     def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
         """Fit adaptation parameters"""
+        X, y = np.asarray(X), np.asarray(y)
+        if sample_weight is not None:
+            sample_weight = np.asarray(sample_weight)
         Xs, Xt, ys, yt, ws, wt = source_target_split(
             X, y, sample_weight, sample_domain=sample_domain
         )
@@ -742,7 +748,7 @@ class JDOTClassifier(DAEstimator):
     def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
         check_is_fitted(self)
-        if sample_domain is not None and np.any(sample_domain >= 0):
+        if sample_domain is not None and np.any(np.asarray(sample_domain) >= 0):
             warnings.warn(
                 "Source domain detected. Predictor is trained on target"
                 "and prediction might be biased."
@@ -763,7 +769,7 @@ class JDOTClassifier(DAEstimator):
     ):
         """Predict using the model"""
         check_is_fitted(self)
-        if sample_domain is not None and np.any(sample_domain >= 0):
+        if sample_domain is not None and np.any(np.asarray(sample_domain) >= 0):
             warnings.warn(
                 "Source domain detected. Predictor is trained on target"
                 "and prediction might be biased."
@@ -773,7 +779,7 @@ class JDOTClassifier(DAEstimator):
     def score(self, X, y, sample_domain=None, *, sample_weight=None, **kwargs):
         """Return the scores of the prediction"""
         check_is_fitted(self)
-        if sample_domain is not None and np.any(sample_domain >= 0):
+        if sample_domain is not None and np.any(np.asarray(sample_domain) >= 0):
             warnings.warn(
                 "Source domain detected. Predictor is trained on target"
                 "and score might be biased."
@@ -829,6 +835,7 @@ class OTLabelPropAdapter(BaseAdapter):
         """Fit adaptation parameters"""
         X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
         if sample_weight is not None:
+            sample_weight = np.asarray(sample_weight)
             Xs, Xt, ys, yt, ws, wt = source_target_split(
                 X, y, sample_weight, sample_domain=sample_domain
             )
diff --git a/skada/_reweight.py b/skada/_reweight.py
index 906ee73..459a823 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -1326,7 +1326,7 @@ class MMDTarSReweightAdapter(BaseReweightAdapter):
         """
         X, sample_domain = check_X_domain(X, sample_domain)
         X_source, X_target, y_source, _ = source_target_split(
-            X, y, sample_domain=sample_domain
+            X, np.asarray(y), sample_domain=sample_domain
         )
         self.X_source_ = X_source
 
diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index ede7be3..75cdf8f 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -306,7 +306,7 @@ class DASVMClassifier(DAEstimator):
     def score(self, X, y, sample_domain=None, *, sample_weight=None, **kwargs):
         """Return the scores of the prediction"""
         check_is_fitted(self)
-        if sample_domain is not None and np.any(sample_domain >= 0):
+        if sample_domain is not None and np.any(np.asarray(sample_domain) >= 0):
             warnings.warn(
                 "Source domain detected. Predictor is trained on target"
                 "and score might be biased."
diff --git a/skada/_subspace.py b/skada/_subspace.py
index b9a06ad..0394e84 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -885,7 +885,7 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
             allow_multi_target=True,
         )
         X_source, X_target, y_source, _ = source_target_split(
-            X, y, sample_domain=sample_domain
+            X, np.asarray(y), sample_domain=sample_domain
         )
 
         if self.n_components is None:
-- 
2.43.0


From 7d83a11b5119c2b05a8a031d1e505625cc14c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 089/110] fix: scorers and splitters accept any array-like

---
 skada/metrics.py         | 2 +-
 skada/model_selection.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 1ca26ea..d82fd51 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -87,7 +87,7 @@ class SupervisedScorer(_BaseDomainAwareScorer):
         return self._sign * self._score_func(
             estimator,
             X[~source_idx],
-            target_labels[~source_idx],
+            np.asarray(target_labels)[~source_idx],
             sample_domain=sample_domain[~source_idx],
             **params,
         )
diff --git a/skada/model_selection.py b/skada/model_selection.py
index 46aeb46..6a1cc09 100644
--- a/skada/model_selection.py
+++ b/skada/model_selection.py
@@ -297,6 +297,7 @@ class LeaveOneDomainOut(SplitSampleDomainRequesterMixin):
             )
 
     def _get_domain_labels(self, sample_domain: np.ndarray) -> np.ndarray:
+        sample_domain = np.asarray(sample_domain)
         return np.unique(sample_domain[sample_domain >= 0])
 
     def get_n_splits(self, X=None, y=None, sample_domain=None):
-- 
2.43.0


From 41562051e65baecd492b9d59a4f52f31a624fe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 090/110] fix: a callable default_selector may take the
 estimator alone, as documented

---
 skada/_pipeline.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/skada/_pipeline.py b/skada/_pipeline.py
index c2a1704..eb72422 100644
--- a/skada/_pipeline.py
+++ b/skada/_pipeline.py
@@ -5,6 +5,7 @@
 # License: BSD 3-Clause
 
 from collections import defaultdict
+from inspect import signature
 from typing import Callable, List, Optional, Union
 
 from joblib import Memory
@@ -109,6 +110,14 @@ def make_da_pipeline(
     return Pipeline(named_steps, memory=memory, verbose=verbose)
 
 
+def _accepts_mask_target_labels(selector: Callable) -> bool:
+    """Whether the callable can be given the `mask_target_labels` keyword."""
+    parameters = signature(selector).parameters.values()
+    return any(
+        p.name == "mask_target_labels" or p.kind == p.VAR_KEYWORD for p in parameters
+    )
+
+
 def _wrap_with_selector(
     estimator: BaseEstimator,
     selector: Union[str, Callable[[BaseEstimator], BaseSelector]],
@@ -116,7 +125,10 @@ def _wrap_with_selector(
 ) -> BaseSelector:
     if (estimator is not None) and not isinstance(estimator, BaseSelector):
         if callable(selector):
-            estimator = selector(estimator, mask_target_labels=mask_target_labels)
+            if _accepts_mask_target_labels(selector):
+                estimator = selector(estimator, mask_target_labels=mask_target_labels)
+            else:
+                estimator = selector(estimator)
             if not isinstance(estimator, BaseSelector):
                 raise ValueError(
                     "Callable `default_selector` has to return `BaseSelector` "  # noqa: E501
-- 
2.43.0


From d7c8b0f19c5c48649cf20eb749008224b6040514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:32 +0000
Subject: [PATCH 091/110] fix: load_mnist_usps draws without repetition and
 accepts a RandomState as documented

---
 skada/datasets/_mnist_usps.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_mnist_usps.py b/skada/datasets/_mnist_usps.py
index 7d00641..b256e14 100644
--- a/skada/datasets/_mnist_usps.py
+++ b/skada/datasets/_mnist_usps.py
@@ -10,7 +10,7 @@ try:
 except ImportError:
     torchvision = False
 
-import numpy as np
+from sklearn.utils import check_random_state
 
 from skada.datasets import DomainAwareDataset
 
@@ -54,7 +54,7 @@ def load_mnist_usps(
     if n_samples < 0 or n_samples > 1:
         raise ValueError("n_samples should be between 0 and 1.")
 
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     transform = transforms.Compose(
         [
@@ -75,8 +75,9 @@ def load_mnist_usps(
     mnist_target = mnist_target[mnist_target < n_classes]
 
     selected_samples = rng.choice(
-        np.linspace(0, len(mnist_data) - 1, len(mnist_data)),
+        len(mnist_data),
         int(n_samples * len(mnist_data)),
+        replace=False,
     )
     mnist_data = mnist_data[selected_samples]
     mnist_target = mnist_target[selected_samples]
@@ -101,8 +102,9 @@ def load_mnist_usps(
     usps_target = usps_target[usps_target < n_classes]
 
     selected_samples = rng.choice(
-        np.linspace(0, len(usps_data) - 1, len(usps_data)),
+        len(usps_data),
         int(n_samples * len(usps_data)),
+        replace=False,
     )
     usps_data = usps_data[selected_samples]
     usps_target = usps_target[selected_samples]
-- 
2.43.0


From ee69ecb5a711baba806afd2b1c5b717c990b0385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:32 +0000
Subject: [PATCH 092/110] fix: a failed dataset download no longer leaves a
 folder taken for the data

---
 skada/datasets/_amazon_review.py | 14 +++++++-------
 skada/datasets/_base.py          | 16 ++++++++++++++++
 skada/datasets/_office.py        | 18 +++++++++---------
 skada/datasets/_office_home.py   | 26 +++++++++++++-------------
 4 files changed, 45 insertions(+), 29 deletions(-)

diff --git a/skada/datasets/_amazon_review.py b/skada/datasets/_amazon_review.py
index feacd66..0700999 100644
--- a/skada/datasets/_amazon_review.py
+++ b/skada/datasets/_amazon_review.py
@@ -16,7 +16,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger, _shuffle_arrays
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _new_dataset_dir, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -205,12 +205,12 @@ def _fetch_amazon_review(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_amazon_review(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        with _new_dataset_dir(dataset_dir):
+            _download_amazon_review(
+                loader_spec.remote,
+                data_home,
+                dataset_dir,
+            )
 
     (X, y) = _load_amazon_review(
         dataset_dir,
diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 5a8484a..10b1fb0 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -4,7 +4,9 @@
 # License: BSD 3-Clause
 
 import os
+import shutil
 import warnings
+from contextlib import contextmanager
 from functools import reduce
 from typing import Dict, Iterable, List, Literal, Mapping, Optional, Tuple, Union
 
@@ -81,6 +83,20 @@ def get_data_home(data_home: Union[str, os.PathLike, None]) -> str:
     return data_home
 
 
+@contextmanager
+def _new_dataset_dir(dataset_dir: Union[str, os.PathLike]):
+    """Create the folder of a dataset, and remove it if filling it fails.
+
+    The loaders take an existing folder for a complete dataset.
+    """
+    os.makedirs(dataset_dir)
+    try:
+        yield
+    except BaseException:
+        shutil.rmtree(dataset_dir, ignore_errors=True)
+        raise
+
+
 class DomainAwareDataset:
     """
     Container carrying all dataset domains.
diff --git a/skada/datasets/_office.py b/skada/datasets/_office.py
index fb44322..4a5d89c 100644
--- a/skada/datasets/_office.py
+++ b/skada/datasets/_office.py
@@ -21,7 +21,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _new_dataset_dir, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -403,14 +403,14 @@ def _fetch_office31(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        # juggling with `extract_root` is only required because SURF features
-        # were archived with root folder and DECAF without it
-        _download_office31(
-            loader_spec.remote,
-            data_home,
-            data_home if loader_spec.extract_root else dataset_dir,
-        )
+        with _new_dataset_dir(dataset_dir):
+            # juggling with `extract_root` is only required because SURF features
+            # were archived with root folder and DECAF without it
+            _download_office31(
+                loader_spec.remote,
+                data_home,
+                data_home if loader_spec.extract_root else dataset_dir,
+            )
     if categories == Office31CategoriesPreset.ALL:
         # reset categories filter
         categories = None
diff --git a/skada/datasets/_office_home.py b/skada/datasets/_office_home.py
index 38f1290..63ab5b6 100644
--- a/skada/datasets/_office_home.py
+++ b/skada/datasets/_office_home.py
@@ -17,7 +17,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger, _shuffle_arrays
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _new_dataset_dir, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -187,12 +187,12 @@ def _fetch_office_home_all(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_office_home(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        with _new_dataset_dir(dataset_dir):
+            _download_office_home(
+                loader_spec.remote,
+                data_home,
+                dataset_dir,
+            )
 
     (X, y, domains) = _load_office_home_all(
         dataset_dir,
@@ -225,12 +225,12 @@ def _fetch_office_home(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_office_home(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        with _new_dataset_dir(dataset_dir):
+            _download_office_home(
+                loader_spec.remote,
+                data_home,
+                dataset_dir,
+            )
 
     (X, y) = _load_office_home(
         dataset_dir,
-- 
2.43.0


From f1ad3747d70aef1b7eb1c3d6135550e4ad4c5fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 093/110] fix: packing an unlabelled domain among regression
 domains marks its labels as missing with NaN

---
 skada/datasets/_base.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 10b1fb0..5f37d16 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -328,12 +328,13 @@ class DomainAwareDataset:
                 DeprecationWarning,
             )
             mask_target_labels = train
+        unlabelled = self._label_of_unlabelled([*as_sources, *as_targets])
         for domain_name in as_sources:
             domain_id = self.domain_names_[domain_name]
             source = self.get_domain(domain_name)
             if len(source) == 1:
                 (X,) = source
-                y = -np.ones(X.shape[0], dtype=np.int32)
+                y = np.full(X.shape[0], unlabelled)
             elif len(source) == 2:
                 X, y = source
             else:
@@ -350,9 +351,7 @@ class DomainAwareDataset:
             target = self.get_domain(domain_name)
             if len(target) == 1:
                 (X,) = target
-                # xxx(okachaiev): for what it's worth, we should likely to
-                # move the decision about dtype to the very end of the list
-                y = -np.ones(X.shape[0], dtype=np.int32)
+                y = np.full(X.shape[0], unlabelled)
             elif len(target) == 2:
                 X, y = target
             else:
@@ -592,6 +591,18 @@ class DomainAwareDataset:
             mask_target_labels=True,
         )
 
+    def _label_of_unlabelled(self, domain_names: Iterable[str]):
+        """Label standing for no label: NaN among floating labels and -1 otherwise."""
+        for domain_name in domain_names:
+            _, *labels = self.get_domain(domain_name)
+            for y in labels:
+                if _IS_TORCH_IMPORTED and isinstance(y, torch.Tensor):
+                    if y.is_floating_point():
+                        return torch.empty(0, dtype=y.dtype).numpy().dtype.type(np.nan)
+                elif np.issubdtype(np.asarray(y).dtype, np.floating):
+                    return np.asarray(y).dtype.type(np.nan)
+        return np.int32(-1)
+
     def __str__(self) -> str:
         return f"DomainAwareDataset(domains={self._get_domain_representation()})"
 
-- 
2.43.0


From 98f966cf28aedf7b580c5329dfe728e8694725c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 094/110] fix: a scalar sample_domain is accepted whatever the
 type of the labels

---
 skada/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/utils.py b/skada/utils.py
index 9644c2a..92490fc 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -96,7 +96,7 @@ def check_X_y_domain(
         sample_domain[mask] = _DEFAULT_TARGET_DOMAIN_LABEL
 
     if np.isscalar(sample_domain):
-        sample_domain = sample_domain*np.ones_like(y)
+        sample_domain = sample_domain*np.ones(X.shape[0], dtype=np.int32)
 
     sample_domain = np.asarray(sample_domain)
     source_idx = extract_source_indices(sample_domain)
-- 
2.43.0


From ab805905dee5ef58431ff77cddcea514904fbca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:27 +0000
Subject: [PATCH 095/110] fix: SelectSourceTarget reports undeclared metadata
 instead of crashing on an array

---
 skada/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index 8ea979e..4bfc10b 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -734,7 +734,7 @@ class SelectSourceTarget(BaseSelector):
                 )
             X_masked, y_masked, params_masked = _apply_domain_masks(X, y, params, masks=domain_masks)
             routing = getattr(get_routing_for_object(base_estimator), method_name)
-            routed_params = self._prepare_routing(routing, X_masked, params_masked)
+            routed_params = self._prepare_routing(routing, X_container, params_masked)
             X_masked, y_masked, routed_params = self._remove_masked(X_masked, y_masked, routed_params)
             estimator = clone(base_estimator)
             estimator_method = getattr(estimator, method_name)
-- 
2.43.0


From 40740b6cd93bd2a23e4f7602ccc911d33d281672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:27 +0000
Subject: [PATCH 096/110] fix: DeepEmbeddedValidation accepts class labels
 stored as floats

---
 skada/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index d82fd51..2238445 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -511,7 +511,7 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
         num_classes = y_pred.shape[0]
 
         # Convert integer labels to one-hot encoding
-        y_true_one_hot = np.eye(num_classes)[y_true]
+        y_true_one_hot = np.eye(num_classes)[int(y_true)]
 
         # Clip predicted probabilities to avoid log(0) or log(1)
         y_pred = np.clip(y_pred, epsilon, 1 - epsilon)
-- 
2.43.0


From 69cd4ca24d24303df1a0ce49457b41ff6ee571a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:25 +0000
Subject: [PATCH 097/110] fix: SelectSourceTarget accepts a target transformer
 without fit_transform

---
 skada/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index 4bfc10b..69ba886 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -747,7 +747,8 @@ class SelectSourceTarget(BaseSelector):
     @available_if(_estimator_has('transform', base_attr_name='source_estimator'))
     def fit_transform(self, X, y=None, **params):
         X_container = MetadataContainer.from_input(X)
-        if hasattr(self.source_estimator, "fit_transform"):
+        target_estimator = self.target_estimator if self.target_estimator is not None else self.source_estimator
+        if hasattr(self.source_estimator, "fit_transform") and hasattr(target_estimator, "fit_transform"):
             domain_outputs = self._fit('fit_transform', X_container, y=y, **params)
             output = _merge_domain_outputs(len(X_container), domain_outputs, allow_containers=True)
         else:
-- 
2.43.0


From 0481e11eee74644b2de4f1f88d7b928126cbc874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:16 +0000
Subject: [PATCH 098/110] fix: merged containers of several domains keep a type
 that holds all of them

---
 skada/_utils.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 46ad4a4..46ff104 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -183,6 +183,7 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
             allow_containers
         ), "Container output is given while `allow_containers` set to False"
         X_output, y_output, params_output = None, None, {}
+        containers = []
         for idx, domain_output in domain_outputs.values():
             if len(domain_output) == 2:
                 domain_X, domain_params = domain_output
@@ -191,22 +192,26 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
                 domain_X, domain_y, domain_params = domain_output
             else:
                 raise ValueError("Invalid container structure")
+            containers.append((idx, domain_X, domain_y, domain_params))
+
+        def _allocate(values):
+            # use a type that can hold the outputs of all domains
+            values = [value for value in values if value is not None]
+            return np.zeros(
+                (n_samples, *values[0].shape[1:]), dtype=np.result_type(*values)
+            )
+
+        for idx, domain_X, domain_y, domain_params in containers:
             if X_output is None:
-                X_output = np.zeros(
-                    (n_samples, *domain_X.shape[1:]), dtype=domain_X.dtype
-                )
+                X_output = _allocate([c[1] for c in containers])
             if domain_y is not None and y_output is None:
-                y_output = np.zeros(
-                    (n_samples, *domain_y.shape[1:]), dtype=domain_y.dtype
-                )
+                y_output = _allocate([c[2] for c in containers])
             X_output[idx] = domain_X
             if domain_y is not None:
                 y_output[idx] = domain_y
             for k, v in domain_params.items():
                 if k not in params_output:
-                    params_output[k] = np.zeros(
-                        (n_samples, *v.shape[1:]), dtype=v.dtype
-                    )
+                    params_output[k] = _allocate([c[3].get(k) for c in containers])
                 params_output[k][idx] = v
         output = X_output, y_output, params_output
     else:
-- 
2.43.0


From 0c2cd4bd8625131d8a131839fbc47f28b808c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:50 +0000
Subject: [PATCH 099/110] fix: automatic shrinkage honours assume_centered

---
 skada/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 46ff104..00b84b7 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -45,7 +45,7 @@ def _estimate_covariance(X, shrinkage, assume_centered=False):
     elif shrinkage == "auto":
         sc = StandardScaler(with_mean=not assume_centered)
         X = sc.fit_transform(X)
-        s = ledoit_wolf(X)[0]
+        s = ledoit_wolf(X, assume_centered=assume_centered)[0]
         # rescale
         s = sc.scale_[:, np.newaxis] * s * sc.scale_[np.newaxis, :]
     elif isinstance(shrinkage, Real):
-- 
2.43.0


From a9120c32a077b3151c59bdfc700ad2ba3dae9efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:54 +0000
Subject: [PATCH 100/110] fix: SubspaceAlignment's default number of components
 fits both roles

---
 skada/_subspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 0394e84..1220e37 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -92,7 +92,7 @@ class SubspaceAlignmentAdapter(BaseAdapter):
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
 
         if self.n_components is None:
-            n_components = min(X.shape[0], X.shape[1])
+            n_components = min(*X_source.shape, *X_target.shape)
         else:
             n_components = self.n_components
         self.random_state_ = check_random_state(self.random_state)
-- 
2.43.0


From a110fe4b9b7a1204da67d64b2d521d755534fcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:54 +0000
Subject: [PATCH 101/110] fix: DensityReweight does not overflow far from the
 source samples

---
 skada/_reweight.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 459a823..65d6986 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -132,7 +132,9 @@ class DensityReweightAdapter(BaseReweightAdapter):
         (source_idx,) = np.where(source_idx)
         ws = self.weight_estimator_source_.score_samples(X[source_idx])
         wt = self.weight_estimator_target_.score_samples(X[source_idx])
-        source_weights = np.exp(wt - ws)
+        log_weights = wt - ws
+        # a common factor cancels in the normalization, but must not overflow
+        source_weights = np.exp(log_weights - max(log_weights.max(), 0))
 
         if source_weights.mean() != 0:
             source_weights /= source_weights.mean()
-- 
2.43.0


From d72c09f39ba89be30dae84dfbe2de6ff7a3494c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:04 +0000
Subject: [PATCH 102/110] fix: MaNo's criterion does not underflow to infinity
 on confident networks

---
 skada/metrics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 2238445..10f1c4c 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -906,9 +906,10 @@ class MaNoScorer(_BaseDomainAwareScorer):
         Compute criterion to select the proper normalization.
         See Eq.(6) of [1]_ for more details.
         """
-        proba = self._stable_softmax(logits)
-        proba = np.log(proba)
-        divergence = -np.mean(proba)
+        # log-softmax, without going through probabilities that can underflow
+        logits = logits - np.max(logits, axis=1, keepdims=True)
+        log_proba = logits - np.log(np.sum(np.exp(logits), axis=1, keepdims=True))
+        divergence = -np.mean(log_proba)
 
         return divergence
 
-- 
2.43.0


From 580a7a2e252ee2bf18d87d02b3cccf6405d9ab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:16 +0000
Subject: [PATCH 103/110] fix: SphericalKMeans tolerates null feature vectors

---
 skada/deep/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index 6a49170..b7d83e9 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -10,7 +10,7 @@ from sklearn.base import BaseEstimator
 from skorch.utils import _identity
 import torch
 from torch.nn import CrossEntropyLoss
-from torch.nn.functional import cosine_similarity
+from torch.nn.functional import cosine_similarity, normalize
 from sklearn.utils.validation import check_is_fitted
 
 
@@ -166,7 +166,7 @@ class SphericalKMeans(BaseEstimator):
             n_samples = X.shape[0]
             indices = torch.randperm(n_samples, generator=generator)[:self.n_clusters].to(self.device)
             centroids = X[indices]
-            return centroids / torch.norm(centroids, dim=1, keepdim=True)
+            return normalize(centroids, dim=1)
 
     def fit(self, X, y=None):
         """Compute spherical k-means clustering.
@@ -191,7 +191,7 @@ class SphericalKMeans(BaseEstimator):
                 X = X.to(self.device)
 
             # Normalize X
-            X = X / torch.norm(X, dim=1, keepdim=True)
+            X = normalize(X, dim=1)  # a null feature vector stays null
 
             best_inertia = None
             best_centroids = None
-- 
2.43.0


From d3b4683d3fd15dd4c6c956f6b75aee12f12431b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:46 +0000
Subject: [PATCH 104/110] fix: one mask for all target domains next to
 real-valued labels

---
 skada/datasets/_base.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 5f37d16..24e4d07 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -345,7 +345,6 @@ class DomainAwareDataset:
             sample_domains.append(np.ones_like(y, dtype=int) * domain_id)
             domain_labels[domain_name] = domain_id
         # xxx(okachaiev): code duplication, re-write when API is fixed
-        dtype = None
         for domain_name in as_targets:
             domain_id = self.domain_names_[domain_name]
             target = self.get_domain(domain_name)
@@ -358,23 +357,25 @@ class DomainAwareDataset:
                 raise ValueError("Invalid definition for domain data")
             if mask_target_labels:
                 if mask is not None:
-                    y = np.array([mask] * X.shape[0], dtype=dtype)
+                    y = np.array([mask] * X.shape[0])
                 elif _IS_TORCH_IMPORTED and isinstance(y, torch.Tensor):
                     if y.is_floating_point():
                         y = torch.full_like(y, np.nan)
+                    elif np.isnan(unlabelled):
+                        y = torch.full_like(y, np.nan, dtype=torch.float)
                     else:
                         y_dtype = torch.promote_types(y.dtype, torch.int8)
                         y = torch.full_like(y, -1, dtype=y_dtype)
                 elif np.issubdtype(y.dtype, np.integer) or y.dtype == bool:
-                    # unsigned labels need a type that can hold the mask
-                    y_dtype = np.result_type(y.dtype, np.int8)
-                    y = -np.ones(X.shape[0], dtype=y_dtype)
-                    # make sure that the mask is reused on the next iteration
-                    mask, dtype = -1, y.dtype
+                    if np.isnan(unlabelled):
+                        # next to real-valued labels, -1 would not be a mask
+                        y = np.full(X.shape[0], unlabelled)
+                    else:
+                        # unsigned labels need a type that can hold the mask
+                        y_dtype = np.result_type(y.dtype, np.int8)
+                        y = -np.ones(X.shape[0], dtype=y_dtype)
                 elif np.issubdtype(y.dtype, np.floating):
                     y = np.array([np.nan] * X.shape[0], dtype=y.dtype)
-                    # make sure that the  mask is reused on the next iteration
-                    mask, dtype = np.nan, y.dtype
             # xxx(okachaiev): this is horribly inefficient, rewrite when API is fixed
             Xs.append(X)
             ys.append(y)
-- 
2.43.0


From c8f31a32d397ff59f7be61e0ac5a685b8ca3a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:28 +0000
Subject: [PATCH 105/110] fix: scorers shared by several threads must not read
 fitted state back from themselves

---
 skada/metrics.py | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 10f1c4c..ec4cbf4 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -156,17 +156,19 @@ class ImportanceWeightedScorer(_BaseDomainAwareScorer):
 
         Returns
         -------
-        self : object
-            Returns self.
+        weight_estimator_source, weight_estimator_target : object
+            The estimators fitted on the source and on the target data.
         """
         weight_estimator = self.weight_estimator
         if weight_estimator is None:
             weight_estimator = KernelDensity()
-        self.weight_estimator_source_ = clone(weight_estimator)
-        self.weight_estimator_target_ = clone(weight_estimator)
-        self.weight_estimator_source_.fit(X_source)
-        self.weight_estimator_target_.fit(X_target)
-        return self
+        source_estimator = clone(weight_estimator)
+        target_estimator = clone(weight_estimator)
+        source_estimator.fit(X_source)
+        target_estimator.fit(X_target)
+        self.weight_estimator_source_ = source_estimator
+        self.weight_estimator_target_ = target_estimator
+        return source_estimator, target_estimator
 
     def _score(self, _, estimator, X, y, sample_domain=None, **params):
         scorer = check_scoring(estimator, self.scoring)
@@ -189,9 +191,13 @@ class ImportanceWeightedScorer(_BaseDomainAwareScorer):
         X_source_reshaped = X_source.reshape(X_source.shape[0], -1)
         X_target_reshaped = X_target.reshape(X_target.shape[0], -1)
 
-        self._fit(X_source_reshaped, X_target_reshaped)
-        ws = self.weight_estimator_source_.score_samples(X_source_reshaped)
-        wt = self.weight_estimator_target_.score_samples(X_source_reshaped)
+        # the scorer may be shared by several threads (`cross_validate` with
+        # `n_jobs`): do not read the estimators back from the attributes
+        source_estimator, target_estimator = self._fit(
+            X_source_reshaped, X_target_reshaped
+        )
+        ws = source_estimator.score_samples(X_source_reshaped)
+        wt = target_estimator.score_samples(X_source_reshaped)
         weights = np.exp(wt - ws)
 
         if weights.sum() != 0:
@@ -396,12 +402,11 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
         domain_classifier = self.domain_classifier
         if domain_classifier is None:
             domain_classifier = LogisticRegression()
-        self.domain_classifier_ = clone(domain_classifier)
+        domain_classifier = clone(domain_classifier)
         y_domain = np.concatenate((len(features) * [1], len(features_target) * [0]))
-        self.domain_classifier_.fit(
-            np.concatenate((features, features_target)), y_domain
-        )
-        return self
+        domain_classifier.fit(np.concatenate((features, features_target)), y_domain)
+        self.domain_classifier_ = domain_classifier
+        return domain_classifier
 
     def _score(self, _, estimator, X, y, sample_domain=None, **kwargs):
         if not hasattr(estimator, "predict_proba"):
@@ -463,9 +468,11 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
             features_val = features_val.detach().numpy()
             features_target = features_target.detach().numpy()
 
-        self._fit_adapt(features_train, features_target)
+        # the scorer may be shared by several threads (`cross_validate` with
+        # `n_jobs`): do not read the classifier back from the attribute
+        domain_classifier = self._fit_adapt(features_train, features_target)
         N_train, N_target = len(features_train), len(features_target)
-        domain_pred = self.domain_classifier_.predict_proba(features_val)
+        domain_pred = domain_classifier.predict_proba(features_val)
         weights = (N_train / N_target) * domain_pred[:, :1] / domain_pred[:, 1:]
         y_pred = estimator.predict_proba(
             X_val, sample_domain=sample_domain_val, allow_source=True
-- 
2.43.0


From ab3bdd19acaf756a1497e4740dec3564fbbee8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:25 +0000
Subject: [PATCH 106/110] fix: contrastive adaptation copes with classes
 missing from the source

---
 skada/deep/callbacks.py | 18 ++++++++++--------
 skada/deep/losses.py    |  9 +++++----
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 6d5b5df..8dadff9 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -50,16 +50,16 @@ class ComputeSourceCentroids(Callback):
 
             features_t = torch.tensor(features_t, device=net.device)
 
-            n_classes = len(y_s.unique())
+            # not always 0, 1, ...: a class may be missing from the source
+            classes = y_s.unique()
+            n_classes = len(classes)
             source_centroids = []
 
-            for c in range(n_classes):
-                mask = y_s == c
-                if mask.sum() > 0:
-                    class_features = features_s[mask]
-                    normalized_features = F.normalize(class_features, p=2, dim=1)
-                    centroid = normalized_features.sum(dim=0)
-                    source_centroids.append(centroid)
+            for c in classes:
+                class_features = features_s[y_s == c]
+                normalized_features = F.normalize(class_features, p=2, dim=1)
+                centroid = normalized_features.sum(dim=0)
+                source_centroids.append(centroid)
 
             source_centroids = torch.stack(source_centroids)
 
@@ -71,6 +71,8 @@ class ComputeSourceCentroids(Callback):
                 device=features_t.device,
             )
             target_kmeans.fit(features_t)
+            # the class each of the clusters started from
+            target_kmeans.classes_ = classes
 
         net.criterion__adapt_criterion.target_kmeans = target_kmeans
 
diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 2c4ac52..46cd2b5 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -249,6 +249,7 @@ def cdd_loss(
 
     # a batch may miss some of the classes
     n_classes = len(target_kmeans.cluster_centers_)
+    classes = getattr(target_kmeans, "classes_", range(n_classes))
 
     # Predict clusters for target samples
     cluster_labels_t = target_kmeans.predict(features_t)
@@ -289,7 +290,7 @@ def cdd_loss(
             if valid_classes[c1] and valid_classes[c2]:
                 # Compute e1
                 kernel_ss = _gaussian_kernel(features_s, features_s, sigmas)
-                mask_c1 = (y_s == c1).float()
+                mask_c1 = (y_s == classes[c1]).float()
                 mask_c1_c1 = mask_c1.unsqueeze(1) * mask_c1.unsqueeze(0)
 
                 # e1 measure the intra-class domain discrepancy
@@ -327,9 +328,9 @@ def cdd_loss(
                 else:
                     interclass += e1 + e2 - 2 * e3
 
-    cdd = (intraclass / len(valid_classes)) - (
-        interclass / (len(valid_classes) ** 2 - len(valid_classes))
-    )
+    # there are no pairs of different classes with a single one
+    n_pairs = max(n_classes**2 - n_classes, 1)
+    cdd = (intraclass / n_classes) - (interclass / n_pairs)
 
     return cdd
 
-- 
2.43.0


From eba599335d5eb4256890d4d966db2bea6b1c443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:25 +0000
Subject: [PATCH 107/110] fix: networks can be cloned right after training

---
 skada/deep/base.py  |  8 ++++++--
 skada/deep/utils.py | 11 +++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 9e9e759..2c536d7 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -15,7 +15,11 @@ from sklearn.base import _clone_parametrized
 from sklearn.metrics import accuracy_score
 from skorch import NeuralNetClassifier
 
-from .utils import _register_forwards_hook, _infer_predict_nonlinearity
+from .utils import (
+    _infer_predict_nonlinearity,
+    _LayerOutputs,
+    _register_forwards_hook,
+)
 
 from skada.base import _DAMetadataRequesterMixin
 from sklearn.utils.validation import check_array
@@ -407,7 +411,7 @@ class DomainAwareModule(torch.nn.Module):
         self.base_module_ = base_module
         self.domain_classifier_ = domain_classifier
         self.layer_name = layer_name
-        self.intermediate_layers = {}
+        self.intermediate_layers = _LayerOutputs()
         self._setup_hooks()
     
     def _setup_hooks(self):
diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index b7d83e9..9e10984 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -14,6 +14,17 @@ from torch.nn.functional import cosine_similarity, normalize
 from sklearn.utils.validation import check_is_fitted
 
 
+class _LayerOutputs(dict):
+    """Outputs of layers during the last forward pass, by name.
+
+    Those are not a part of the state of the module and, as a part of
+    the autograd graph, could not be deep-copied: copies start empty.
+    """
+
+    def __deepcopy__(self, memo):
+        return type(self)()
+
+
 class IntermediateLayerHook:
     def __init__(self, intermediate_layers, layer_name):
         self.intermediate_layers = intermediate_layers
-- 
2.43.0


From aafedb98df9c7821a51f596c860b680ebe61aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:39 +0000
Subject: [PATCH 108/110] fix: a proportion of 1 keeps all the samples in the
 subsamplers

---
 skada/transformers.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skada/transformers.py b/skada/transformers.py
index 59806f5..c452ca9 100644
--- a/skada/transformers.py
+++ b/skada/transformers.py
@@ -10,6 +10,12 @@ from .model_selection import StratifiedDomainShuffleSplit
 from .utils import check_X_y_domain
 
 
+def _keeps_all(train_size, n_samples):
+    """Whether the given size, or proportion, is that of all the samples."""
+    is_proportion = isinstance(train_size, float)
+    return train_size >= n_samples or (is_proportion and train_size == 1)
+
+
 class Subsampler(BaseAdapter):
     """Transformer that subsamples the data.
 
@@ -47,7 +53,7 @@ class Subsampler(BaseAdapter):
 
         self.rng_ = check_random_state(self.random_state)
 
-        if self.train_size >= X.shape[0]:
+        if _keeps_all(self.train_size, X.shape[0]):
             return (
                 X,
                 y,
@@ -112,7 +118,7 @@ class DomainSubsampler(BaseAdapter):
 
         self.rng_ = check_random_state(self.random_state)
 
-        if self.train_size >= X.shape[0]:
+        if _keeps_all(self.train_size, X.shape[0]):
             return (
                 X,
                 y,
@@ -175,7 +181,7 @@ class StratifiedDomainSubsampler(BaseAdapter):
 
         self.rng_ = check_random_state(self.random_state)
 
-        if self.train_size >= X.shape[0]:
+        if _keeps_all(self.train_size, X.shape[0]):
             return (
                 X,
                 y,
-- 
2.43.0


From 381f06ab21b3b9279cc26b5f249d270c0d3af9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:32 +0000
Subject: [PATCH 109/110] fix: mask target labels of boolean and unsigned types
 in pipelines

A boolean label can not hold the -1 mask: target samples became samples
of the class True for the estimators behind a selector. Unsigned labels
were refused with an OverflowError.
---
 skada/_ot.py  | 4 ++--
 skada/base.py | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index eb88848..2b1835b 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -859,7 +859,7 @@ class OTLabelPropAdapter(BaseAdapter):
             self.yht_continuous_ = yht
             yht = np.argmax(yht, axis=1)
             yht = classes[yht]
-            yout = -np.ones_like(y)
+            yout = np.full(y.shape, -1, dtype=np.result_type(y.dtype, np.int8))
         else:
             Y = ys
             yht = G.T.dot(Y) / wt
@@ -1004,7 +1004,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         yh = self.classes_[np.argmax(yh, axis=1)]
 
-        yout = -np.ones_like(y)
+        yout = np.full(y.shape, -1, dtype=np.result_type(y.dtype, np.int8))
         yout[sample_domain < 0] = yh
 
         return X, yout, {}
diff --git a/skada/base.py b/skada/base.py
index 69ba886..f717323 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -366,6 +366,8 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
             # mask a copy, the labels given by the caller should stay intact
             y = np.array(y)
             if y_type == Y_Type.DISCRETE:
+                # boolean and unsigned labels need a type that can hold the mask
+                y = y.astype(np.result_type(y.dtype, np.int8), copy=False)
                 y[~source_idx] = _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL
             elif y_type == Y_Type.CONTINUOUS:
                 y[~source_idx] = _DEFAULT_MASKED_TARGET_REGRESSION_LABEL
-- 
2.43.0


From 29041c123ed7c236a98957ddef4983a8ffabc184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:15 +0000
Subject: [PATCH 110/110] fix: weights given to a pipeline reach the steps that
 ask for them

---
 skada/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index f717323..31feebc 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -224,6 +224,7 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
             .add(estimator=self.base_estimator, method_mapping=MethodMapping()
                  .add(callee='fit', caller='fit')
                  .add(callee='partial_fit', caller='partial_fit')
+                 .add(callee='fit_transform', caller='fit_transform')
                  .add(callee='transform', caller='transform')
                  .add(callee='predict', caller='predict')
                  .add(callee='predict_proba', caller='predict_proba')
@@ -646,6 +647,7 @@ class SelectSourceTarget(BaseSelector):
         routing.add(estimator=self.source_estimator, method_mapping=MethodMapping()
             .add(callee='fit', caller='fit')
             .add(callee='partial_fit', caller='partial_fit')
+            .add(callee='fit_transform', caller='fit_transform')
             .add(callee='transform', caller='transform')
             .add(callee='predict', caller='predict')
             .add(callee='predict_proba', caller='predict_proba')
@@ -656,6 +658,7 @@ class SelectSourceTarget(BaseSelector):
             routing.add(estimator=self.target_estimator, method_mapping=MethodMapping()
                 .add(callee='fit', caller='fit')
                 .add(callee='partial_fit', caller='partial_fit')
+                .add(callee='fit_transform', caller='fit_transform')
                 .add(callee='transform', caller='transform')
                 .add(callee='predict', caller='predict')
                 .add(callee='predict_proba', caller='predict_proba')
-- 
2.43.0

