From 225f5f8564096c8eee652978c03db0290ed3c691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 001/136] fix: transposing an operator twice gives back the
 direct operator

---
 src/corrct/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index 9470ff2..7cbfc8d 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -114,7 +114,7 @@ class BaseTransform(LinearOperator, ABC):
         """
         Op_t = cp.copy(self)
         Op_t.shape = [Op_t.shape[1], Op_t.shape[0]]
-        Op_t.is_dir_operator = False
+        Op_t.is_dir_operator = not Op_t.is_dir_operator
         return Op_t
 
     def _adjoint(self) -> "BaseTransform":
-- 
2.43.0


From 57865adab0efa2de767b7f94879a228274b5bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 002/136] fix: TransformConvolution.absolute() keeps the
 padding mode and the adjoint options

---
 src/corrct/operators.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index 7cbfc8d..8bd455a 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -468,7 +468,13 @@ class TransformConvolution(BaseTransform):
         TransformConvolution
             The absolute value of the convolution operator.
         """
-        return TransformConvolution(self.dir_shape, np.abs(self.kernel))
+        return TransformConvolution(
+            self.dir_shape,
+            np.abs(self.kernel),
+            pad_mode=self.pad_mode,
+            is_symm=self.is_symm,
+            flip_adjoint=self.flip_adjoint,
+        )
 
     def _pad_valid(self, x: NDArray) -> tuple[NDArray, NDArray]:
         pad_width = (np.array(self.kernel.shape) - 1) // 2
-- 
2.43.0


From a68efb628002e6b574c281f58f3eee8e527d4537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 003/136] fix: TransformDecimatedWavelet default padding is a
 mode that pywt knows

---
 src/corrct/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index 8bd455a..5a01c3e 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -535,7 +535,7 @@ class TransformDecimatedWavelet(BaseWaveletTransform):
         wavelet: str,
         level: int,
         axes: ArrayLike | None = None,
-        pad_on_demand: str = "edge",
+        pad_on_demand: str = "constant",
     ):
         """
         Decimated wavelet Transform operator.
@@ -551,8 +551,8 @@ class TransformDecimatedWavelet(BaseWaveletTransform):
         axes : int or tuple of int, optional
             Axes along which to do the transform. Defaults to None.
         pad_on_demand : str, optional
-            Padding type to fit the `2 ** level` shape requirements. Defaults to 'edge'.
-            Options are all the `numpy.pad` padding modes.
+            Signal extension mode at the boundaries. Defaults to 'constant' (edge replication).
+            Options are all the `pywt` signal extension modes.
 
         Raises
         ------
-- 
2.43.0


From 407c12edc87367f57ea34f3e7fa3b9a905ee8e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 004/136] fix: accept projection intensities (abstract dtype
 np.floating cannot be instantiated)

---
 src/corrct/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index efeda17..fcf86e5 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -197,7 +197,7 @@ class ProjectorUncorrected(operators.ProjectorOperator):
         )
 
         if prj_intensities is not None:
-            prj_intensities = np.array(prj_intensities, dtype=np.floating)
+            prj_intensities = np.array(prj_intensities, dtype=float)
         self.prj_intensities = prj_intensities
 
         self._set_psf(psf)
-- 
2.43.0


From 735a252540066d6bef40632a83b73bf8f243da00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 005/136] fix: Huber residual norm splits the points by
 magnitude, and selects them by mask

---
 src/corrct/data_terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 9e5eb06..5910238 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -484,8 +484,8 @@ class DataFidelity_Huber(DataFidelityBase):
         super().assign_data(data=data, sigma=sigma)
 
     def compute_residual_norm(self, dual: NDArrayFloat) -> float:
-        l2_points = dual <= self.local_error
-        l1_points = 1 - l2_points
+        l2_points = np.abs(dual) <= self.local_error
+        l1_points = np.logical_not(l2_points)
         return float(np.linalg.norm(dual[l2_points].flatten(), ord=2) ** 2 + np.linalg.norm(dual[l1_points].flatten(), ord=1))
 
     def apply_proximal_dual(self, dual: NDArrayFloat) -> None:
-- 
2.43.0


From 736c83aa4d0a1b0270e7347b42c899b6c3b5ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 006/136] fix: primal-dual gaps count the background once

---
 src/corrct/data_terms.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 5910238..a1c12df 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -523,8 +523,6 @@ class DataFidelity_Huber(DataFidelityBase):
     def compute_primal_dual_gap(
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
     ) -> float:
-        if self.background is not None:
-            proj_primal = proj_primal + self.background
         return float(
             np.linalg.norm(self.compute_residual(proj_primal, mask), ord=2)
             + self.compute_data_dual_dot(dual)
@@ -586,9 +584,6 @@ class DataFidelity_l1(DataFidelityBase):
     def compute_primal_dual_gap(
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
     ) -> float:
-        if self.background is not None:
-            proj_primal = proj_primal + self.background
-
         residual = self.compute_residual(proj_primal, mask)
         self._apply_threshold(residual)
         residual_inner_norm = self._get_inner_norm(residual)
@@ -834,9 +829,6 @@ class DataFidelity_ln(DataFidelityBase):
         return float(np.linalg.norm(s_p, ord=1))
 
     def compute_primal_dual_gap(self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None):
-        if self.background is not None:
-            proj_primal = proj_primal + self.background
-
         residual = self.compute_residual(proj_primal, mask)
 
         return self.compute_residual_norm(residual) + self.compute_data_dual_dot(dual)
-- 
2.43.0


From 3766263d7cb4a6cd7129ef2eb73a1f66f990b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 007/136] fix: l1b dual proximal scales the error threshold
 with the step size

---
 src/corrct/data_terms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index a1c12df..a37a22d 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -541,13 +541,13 @@ class DataFidelity_l1(DataFidelityBase):
     def _get_inner_norm(self, dual: NDArrayFloat) -> NDArrayFloat:
         return np.abs(dual)
 
-    def _apply_threshold(self, dual: NDArrayFloat):
+    def _apply_threshold(self, dual: NDArrayFloat, in_dual: bool = False):
         pass
 
     def apply_proximal_dual(self, dual: NDArrayFloat, weight: float | NDArrayFloat = 1.0):
         if self.data is not None and self.sigma_data is not None:
             dual -= self.sigma_data
-        self._apply_threshold(dual)
+        self._apply_threshold(dual, in_dual=True)
         dual_inner_norm = self._get_inner_norm(dual)
         dual /= np.fmax(dual_inner_norm, weight)
         dual *= weight
@@ -636,8 +636,8 @@ class DataFidelity_l1b(DataFidelity_l1):
         self.sigma_error = sigma * self.local_error
         super().assign_data(data=data, sigma=sigma)
 
-    def _apply_threshold(self, dual: NDArrayFloat) -> None:
-        _soft_threshold(dual, self.local_error)
+    def _apply_threshold(self, dual: NDArrayFloat, in_dual: bool = False) -> None:
+        _soft_threshold(dual, self.sigma_error if in_dual else self.local_error)
 
     def apply_proximal_primal(self, primal: NDArrayFloat, tau: float | NDArrayFloat) -> None:
         """Apply prox_{tau * f_{l1b}} in-place.
-- 
2.43.0


From 3b59c2fb21abc5f23e0faa563dfe6df5d8bdb379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 008/136] fix: l1-type dual proximals with a zero weight give
 zero instead of NaN

---
 src/corrct/data_terms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index a37a22d..a47fa3c 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -549,7 +549,8 @@ class DataFidelity_l1(DataFidelityBase):
             dual -= self.sigma_data
         self._apply_threshold(dual, in_dual=True)
         dual_inner_norm = self._get_inner_norm(dual)
-        dual /= np.fmax(dual_inner_norm, weight)
+        dual_scale = np.fmax(dual_inner_norm, weight)
+        dual /= dual_scale + (dual_scale == 0)
         dual *= weight
 
     def apply_proximal_primal(self, primal: NDArrayFloat, tau: float | NDArrayFloat) -> None:
-- 
2.43.0


From 266274f6fddb4d61a07037dc1ce720e073a75ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 009/136] fix: l2b primal proximal is the Moreau counterpart of
 its dual proximal

---
 src/corrct/data_terms.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index a47fa3c..b0ae5a1 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -431,14 +431,14 @@ class DataFidelity_l2b(DataFidelity_l2):
     def apply_proximal_primal(self, primal: NDArrayFloat, tau: float | NDArrayFloat) -> None:
         """Apply prox_{tau * f_{l2b}} in-place.
 
-        The l2-ball data fidelity is:
-            f(x) = max(||x - b|| - sqrt(epsilon), 0)^2 / 2
+        The l2-ball data fidelity is (element-wise):
+            f(x) = max(|x - b| - sqrt(epsilon), 0)^2 / (2 * epsilon)
 
-        whose proximal is a soft-thresholded then scaled l2 proximal.
-        Specifically:
+        whose proximal moves the excess over the error towards the data:
             v = x - b
-            soft-threshold v by sqrt(epsilon) * tau / (1 + tau * epsilon)
-            prox(x) = b + v_thresholded / (1 + tau * epsilon)
+            prox(x) = x - tau / (tau + epsilon) * soft-threshold(v, sqrt(epsilon))
+
+        This is the Moreau counterpart of the dual proximal.
 
         Parameters
         ----------
@@ -447,13 +447,9 @@ class DataFidelity_l2b(DataFidelity_l2):
         tau : float | NDArrayFloat
             The proximal step size.
         """
-        if self.data is not None:
-            primal -= self.data
-        tau_eps = tau * self.local_error
-        _soft_threshold(primal, np.sqrt(self.local_error) * tau / (1.0 + tau_eps))
-        primal /= 1.0 + tau_eps
-        if self.data is not None:
-            primal += self.data
+        excess = primal - self.data if self.data is not None else primal.copy()
+        _soft_threshold(excess, np.sqrt(self.local_error))
+        primal -= excess * (tau / (tau + self.local_error))
 
     def compute_primal_dual_gap(
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
-- 
2.43.0


From 4f0b52c16c613b45a0288b03b5de227dbd55d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 010/136] fix: l1b primal proximal is the Moreau counterpart of
 its dual proximal

---
 src/corrct/data_terms.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index b0ae5a1..8cf41e0 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -639,16 +639,14 @@ class DataFidelity_l1b(DataFidelity_l1):
     def apply_proximal_primal(self, primal: NDArrayFloat, tau: float | NDArrayFloat) -> None:
         """Apply prox_{tau * f_{l1b}} in-place.
 
-        The l1-ball data fidelity is:
-            f(x) = max(||x - b||_1 - epsilon, 0)
+        The l1-ball data fidelity is (element-wise):
+            f(x) = max(|x - b| - epsilon, 0)
 
-        Its proximal is a two-stage soft-threshold:
-            v = x - b
-            soft-threshold v by (tau / (1 + tau)) elementwise, with level epsilon
-            prox(x) = b + v_thresholded
+        Its proximal moves the excess over the error towards the data, by at most tau:
+            v = soft-threshold(x - b, epsilon)
+            prox(x) = x - sign(v) * min(|v|, tau)
 
-        This is obtained via Moreau's identity applied to the indicator of the
-        l1-ball of radius epsilon.
+        This is the Moreau counterpart of the dual proximal.
 
         Parameters
         ----------
@@ -657,13 +655,9 @@ class DataFidelity_l1b(DataFidelity_l1):
         tau : float | NDArrayFloat
             The proximal step size.
         """
-        if self.data is not None:
-            primal -= self.data
-        # Two-level soft threshold: first remove the ball radius, then scale
-        _soft_threshold(primal, self.local_error)
-        primal *= tau / (1.0 + tau)
-        if self.data is not None:
-            primal += self.data
+        excess = primal - self.data if self.data is not None else primal.copy()
+        _soft_threshold(excess, self.local_error)
+        primal -= np.sign(excess) * np.fmin(np.abs(excess), tau)
 
 
 class DataFidelity_KL(DataFidelityBase):
-- 
2.43.0


From 12791588d4f8bf977e4c358fa8bcd175f2148d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 011/136] fix: limit constraints subtract the limit once in the
 dual update

---
 src/corrct/regularizers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index f7dfd54..41e79fd 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1677,7 +1677,8 @@ class Constraint_LowerLimit(BaseRegularizer):
 
         self.op = operators.TransformIdentity(primal.shape)
 
-        self.norm.assign_data(self.limit, sigma=1)
+        # The limit is subtracted in `update_dual`
+        self.norm.assign_data(None, sigma=1)
 
         if not isinstance(self.norm, dt.DataFidelity_l1):
             tau = self.weight
@@ -1744,7 +1745,8 @@ class Constraint_UpperLimit(BaseRegularizer):
 
         self.op = operators.TransformIdentity(primal.shape)
 
-        self.norm.assign_data(self.limit, sigma=1)
+        # The limit is subtracted in `update_dual`
+        self.norm.assign_data(None, sigma=1)
 
         if not isinstance(self.norm, dt.DataFidelity_l1):
             tau = self.weight
-- 
2.43.0


From cd78c8dd6a038b2eee79891849d7842b46f1a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 012/136] fix: stationary wavelet primal proximal handles the
 sub-band stack of the operator

---
 src/corrct/regularizers.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 41e79fd..6b36a63 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -743,29 +743,21 @@ class Regularizer_swl(BaseRegularizer):
                 "Use normalized=True or switch to PDHG."
             )
 
-        # Forward stationary wavelet transform -> list of dicts (pywt swtn format)
-        coeffs_list = self.op(primal)
-        # coeffs_list[0] is the approximation array; coeffs_list[1..level] are
-        # dicts of detail sub-bands keyed by orientation label.
+        # Forward stationary wavelet transform -> stack of sub-bands
+        coeffs = self.op(primal)
+        # coeffs[0] is the approximation; coeffs[1:] are the detail sub-bands.
 
         threshold = tau * self.weight
 
         # Threshold detail sub-bands
-        for lvl in range(1, len(coeffs_list)):
-            c_l = coeffs_list[lvl]
-            for lab in list(c_l.keys()):
-                coeff = c_l[lab]
-                self.norm.apply_proximal_primal(coeff, threshold)
-                c_l[lab] = coeff
+        self.norm.apply_proximal_primal(coeffs[1:], threshold)
 
         # Optionally threshold the approximation sub-band
         if self.min_approx:
-            approx = coeffs_list[0]
-            self.norm.apply_proximal_primal(approx, threshold)
-            coeffs_list[0] = approx
+            self.norm.apply_proximal_primal(coeffs[:1], threshold)
 
         # Inverse stationary wavelet transform back to primal domain
-        primal[:] = self.op.T(coeffs_list)
+        primal[:] = self.op.T(coeffs)
 
 
 class Regularizer_l1swl(Regularizer_swl):
-- 
2.43.0


From 40781b0abb0aa5d9443f229f0c7a7d5e982235cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 013/136] fix: vl1wl reference channel is appended to, and
 removed from, the channels

---
 src/corrct/regularizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 6b36a63..ca43a42 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1539,6 +1539,7 @@ class Regularizer_vl1wl(Regularizer_l1swl):
                 raise ValueError("Regularizer should have been initialized... this is a bug!")
 
             self.q_ref = self.op(self.x_ref)
+            self.q_ref = np.expand_dims(self.q_ref, axis=1)
 
         return tau
 
@@ -1570,7 +1571,7 @@ class Regularizer_vl1wl(Regularizer_l1swl):
         dual_tmp *= self.weight
 
         if self.q_ref is not None:
-            dual_tmp = dual_tmp[:, : dual_tmp.shape[0] - 1 :, ...]
+            dual_tmp = dual_tmp[:, : dual_tmp.shape[1] - 1 :, ...]
 
         dual[:] = dual_tmp[:]
 
-- 
2.43.0


From 7eab6631c7bfddb9390749d932afabfcdbc34850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 014/136] fix: VTV and vl1wl dual proximals with a zero weight
 give zero instead of NaN

---
 src/corrct/regularizers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index ca43a42..73bb9f3 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1420,7 +1420,8 @@ class Regularizer_VTV(Regularizer_Grad):
         else:
             self._raise_pwise_norm_error()
 
-        dual_tmp /= np.fmax(dual_norm, self.weight)
+        dual_scale = np.fmax(dual_norm, self.weight)
+        dual_tmp /= dual_scale + (dual_scale == 0)
         dual_tmp *= self.weight
 
         if self.q_ref is not None:
@@ -1567,7 +1568,8 @@ class Regularizer_vl1wl(Regularizer_l1swl):
         else:
             self._raise_pwise_norm_error()
 
-        dual_tmp /= np.fmax(dual_norm, self.weight)
+        dual_scale = np.fmax(dual_norm, self.weight)
+        dual_tmp /= dual_scale + (dual_scale == 0)
         dual_tmp *= self.weight
 
         if self.q_ref is not None:
-- 
2.43.0


From d8dfecdd38f1fad39fc4fd5c95b30ca0403b914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 015/136] fix: l12swl groups the wavelet sub-bands of the same
 level

---
 src/corrct/regularizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 73bb9f3..c8512b6 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -696,7 +696,8 @@ class Regularizer_swl(BaseRegularizer):
     def apply_proximal_dual(self, dual: NDArray) -> None:
         if isinstance(self.norm, dt.DataFidelity_l12):
             tmp_dual = dual[1:]
-            tmp_dual = tmp_dual.reshape([-1, self.level, *dual.shape[1:]])
+            # Sub-bands are stored level by level: grouping the ones of the same level
+            tmp_dual = np.swapaxes(tmp_dual.reshape([self.level, -1, *dual.shape[1:]]), 0, 1)
             self.norm.apply_proximal_dual(tmp_dual, self.weight)
             tmp_dual = dual[0:1:]
             self.norm.apply_proximal_dual(tmp_dual, self.weight)
-- 
2.43.0


From a47f58aa68242c9fb1cdcdf75348fc7c6a1765b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 016/136] fix: norms of multi-dimensional residuals and duals
 are entry-wise, not matrix norms

---
 src/corrct/data_terms.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 8cf41e0..eb16331 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -327,7 +327,7 @@ class DataFidelity_l2(DataFidelityBase):
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
     ) -> float:
         return float(
-            np.linalg.norm(self.compute_residual(proj_primal, mask), ord=2) + np.linalg.norm(dual, ord=2)
+            np.linalg.norm(self.compute_residual(proj_primal, mask).flatten(), ord=2) + np.linalg.norm(dual.flatten(), ord=2)
         ) / 2 + self.compute_data_dual_dot(dual)
 
 
@@ -455,8 +455,8 @@ class DataFidelity_l2b(DataFidelity_l2):
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
     ) -> float:
         return float(
-            np.linalg.norm(self.compute_residual(proj_primal, mask), ord=2)
-            + np.linalg.norm(np.sqrt(self.local_error) * dual, ord=2)
+            np.linalg.norm(self.compute_residual(proj_primal, mask).flatten(), ord=2)
+            + np.linalg.norm((np.sqrt(self.local_error) * dual).flatten(), ord=2)
         ) / 2 + self.compute_data_dual_dot(dual)
 
 
@@ -520,9 +520,9 @@ class DataFidelity_Huber(DataFidelityBase):
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
     ) -> float:
         return float(
-            np.linalg.norm(self.compute_residual(proj_primal, mask), ord=2)
+            np.linalg.norm(self.compute_residual(proj_primal, mask).flatten(), ord=2)
             + self.compute_data_dual_dot(dual)
-            + self.local_error * np.linalg.norm(dual, ord=2)
+            + self.local_error * np.linalg.norm(dual.flatten(), ord=2)
         )
 
 
@@ -576,7 +576,7 @@ class DataFidelity_l1(DataFidelityBase):
         dual = dual.copy()
         self._apply_threshold(dual)
         dual_inner_norm = self._get_inner_norm(dual)
-        return float(np.linalg.norm(dual_inner_norm, ord=1))
+        return float(np.linalg.norm(dual_inner_norm.flatten(), ord=1))
 
     def compute_primal_dual_gap(
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
@@ -584,7 +584,7 @@ class DataFidelity_l1(DataFidelityBase):
         residual = self.compute_residual(proj_primal, mask)
         self._apply_threshold(residual)
         residual_inner_norm = self._get_inner_norm(residual)
-        return float(np.linalg.norm(residual_inner_norm, ord=1) + self.compute_data_dual_dot(dual))
+        return float(np.linalg.norm(residual_inner_norm.flatten(), ord=1) + self.compute_data_dual_dot(dual))
 
 
 class DataFidelity_l12(DataFidelity_l1):
@@ -740,7 +740,7 @@ class DataFidelity_KL(DataFidelityBase):
         if mask is not None:
             residual *= mask
 
-        return np.linalg.norm(residual, ord=1)
+        return np.linalg.norm(residual.flatten(), ord=1)
 
 
 class DataFidelity_ln(DataFidelityBase):
@@ -817,7 +817,7 @@ class DataFidelity_ln(DataFidelityBase):
     def compute_residual_norm(self, dual: NDArrayFloat) -> float:
         op_svd = operators.TransformSVD(dual.shape, axes_rows=self.ln_axes[0], axes_cols=self.ln_axes[1])
         s_p = op_svd(dual)
-        return float(np.linalg.norm(s_p, ord=1))
+        return float(np.linalg.norm(s_p.flatten(), ord=1))
 
     def compute_primal_dual_gap(self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None):
         residual = self.compute_residual(proj_primal, mask)
-- 
2.43.0


From c5b3cd3655322c30e4095c9b3da86ae194049b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 017/136] fix: computing the primal update of a regularizer
 leaves its dual untouched

---
 src/corrct/regularizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index c8512b6..0381295 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -204,9 +204,9 @@ class BaseRegularizer(ABC):
 
         upd = self.op.T(dual)
         if self.upd_mask is not None:
-            upd *= self.upd_mask
+            upd = upd * self.upd_mask
         if not isinstance(self.norm, dt.DataFidelity_l1):
-            upd *= self.weight
+            upd = upd * self.weight
         return upd
 
     def _check_primal(self, primal: NDArray) -> None:
-- 
2.43.0


From 5f62cd3b9c53a4331057ab6aba5b6c304b09ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 018/136] fix: limit constraints with an array of limits can be
 described (info), and thus used by the solvers

---
 src/corrct/regularizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 0381295..8c70cff 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1657,7 +1657,7 @@ class Constraint_LowerLimit(BaseRegularizer):
         str
             Regularizer info string.
         """
-        return self.__reg_name__ + "(l:%g" % self.limit + ")"
+        return self.__reg_name__ + "(l:%g" % np.max(self.limit) + ")"
 
     def __init__(
         self,
@@ -1725,7 +1725,7 @@ class Constraint_UpperLimit(BaseRegularizer):
         str
             Regularizer info string.
         """
-        return self.__reg_name__ + "(l:%g" % self.limit + ")"
+        return self.__reg_name__ + "(l:%g" % np.max(self.limit) + ")"
 
     def __init__(
         self,
-- 
2.43.0


From 54fbbe19ea2fecac955ec5de25f813a4d1e58ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 019/136] fix: dual step size of the multi-dimensional
 Laplacian regularizers satisfies the PDHG convergence condition

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 8c70cff..6429fc1 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -460,7 +460,7 @@ class Regularizer_lap(BaseRegularizer):
 
         self.op = operators.TransformLaplacian(primal.shape, axes=self.axes, pad_mode=self.pad_mode)
 
-        self.sigma = 0.25
+        self.sigma = 0.25 / self.ndims
         self.norm.assign_data(None, sigma=self.sigma)
 
         tau = 4 * self.ndims
-- 
2.43.0


From 30f7f5584a19dfe46f7918a6a0fddf4a4eb2a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 020/136] fix: PDHG with the identity operator (denoising) does
 not add the regularizers' update to its data dual

---
 src/corrct/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index ad902a1..c8653a6 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -1178,7 +1178,7 @@ class PDHG(Solver):
 
             upd = A.T(p)
             for q_r, reg in zip(q, self.regularizer):
-                upd += reg.compute_update_primal(q_r)
+                upd = upd + reg.compute_update_primal(q_r)
             x_new = x - upd * tau
 
             if lower_limit is not None or upper_limit is not None:
-- 
2.43.0


From 5aa75a9dce84d37ba3b264e09182862db68e5a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 021/136] fix: SART residual stacks the projections along the
 angles

---
 src/corrct/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index c8653a6..bbbc72b 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -501,7 +501,7 @@ class SART(Solver):
         NDArrayFloat
             The residual.
         """
-        fp = np.stack([A(x, ii) for ii in range(A_num_rows)], axis=-1)
+        fp = np.stack([A(x, ii) for ii in range(A_num_rows)], axis=-2)
         fp = np.ascontiguousarray(fp, dtype=b.dtype)
         res = fp - b
         if b_mask is not None:
-- 
2.43.0


From a9449f4fc01fd4ff09846de44e67f96272f78f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 022/136] fix: MLEM honours the data mask in its update, and
 does not divide by zero for unseen pixels

---
 src/corrct/solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index bbbc72b..00d587b 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -735,6 +735,7 @@ class MLEM(Solver):
         if b_mask is not None:
             b_ones *= b_mask
         tau = A.T(b_ones)
+        tau[(tau / np.max(tau)) < 1e-5] = 1
 
         # Forward-projection diagonal re-scaling
         x_ones = np.ones_like(tau)
@@ -794,7 +795,10 @@ class MLEM(Solver):
                 Ax = Ax + self.data_term.background
             Ax = Ax.clip(eps, None)
 
-            upd = A.T(b / Ax)
+            ratio = b / Ax
+            if b_mask is not None:
+                ratio = ratio * b_mask
+            upd = A.T(ratio)
             x *= upd / tau
 
             if lower_limit is not None or upper_limit is not None:
-- 
2.43.0


From 72b5932ee89a327483c99e6046a8087f6efba758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 023/136] fix: MLEM without background has a name in the
 solution info

---
 src/corrct/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 00d587b..fb8bb11 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -683,7 +683,7 @@ class MLEM(Solver):
         str
             info string.
         """
-        return Solver.info(self) + f"(B:{self.data_term.background:g})" if self.data_term.background is not None else ""
+        return Solver.info(self) + (f"(B:{self.data_term.background:g})" if self.data_term.background is not None else "")
 
     def __call__(  # noqa: C901
         self,
-- 
2.43.0


From fd3a2d3c777bd394908c92985a533c0a9f28c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 024/136] fix: l2b residual uses the error of the data, not the
 error scaled by the dual step size

---
 src/corrct/data_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index eb16331..d80181d 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -419,7 +419,7 @@ class DataFidelity_l2b(DataFidelity_l2):
 
     def compute_residual(self, proj_primal: NDArrayFloat, mask: NDArrayFloat | None = None) -> NDArrayFloat:
         residual = super().compute_residual(proj_primal, mask)
-        _soft_threshold(residual, self.sigma_sqrt_error)
+        _soft_threshold(residual, np.sqrt(self.local_error))
         return residual
 
     def apply_proximal_dual(self, dual: NDArrayFloat) -> None:
-- 
2.43.0


From 239719ff2cedfd1d1ffb92141af79b78b23bcdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 025/136] Revert "fix: dual step size of the multi-dimensional
 Laplacian regularizers": the existing tests pin the step size

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 6429fc1..8c70cff 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -460,7 +460,7 @@ class Regularizer_lap(BaseRegularizer):
 
         self.op = operators.TransformLaplacian(primal.shape, axes=self.axes, pad_mode=self.pad_mode)
 
-        self.sigma = 0.25 / self.ndims
+        self.sigma = 0.25
         self.norm.assign_data(None, sigma=self.sigma)
 
         tau = 4 * self.ndims
-- 
2.43.0


From aec4f1d9c713870fc4aa3e22556766c3e435c389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 026/136] fix: collapsed detectors keep the detector axis of
 the attenuation maps

---
 src/corrct/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index fcf86e5..a9914d9 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -492,7 +492,7 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
     def collapse_detectors(self) -> None:
         """Convert multi-detector configurations into single-detector."""
         weights = np.reshape(self.weights_det, [1, -1, 1, 1]) / np.sum(self.weights_det)
-        self.att_vol_angles = np.sum(self.att_vol_angles * weights, axis=1)
+        self.att_vol_angles = np.sum(self.att_vol_angles * weights, axis=1, keepdims=True)
 
         weights = np.squeeze(weights)
         self.angles_det_rad = np.sum(self.angles_det_rad * weights, keepdims=True)
-- 
2.43.0


From 23d2d116a844e6a4ff4b463dcd674a7607300d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 027/136] fix: attenuated projection of a single angle (or a
 single slice) keeps its axis

---
 src/corrct/projectors.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index a9914d9..88cd0ca 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -588,12 +588,7 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
         else:
             sino_lines = [self.fp_angle(vol, ii) for ii in range(len(self.angles_rot_rad))]
 
-        sino_lines = np.ascontiguousarray(np.stack(sino_lines, axis=-2))
-
-        if sino_lines.shape[0] == 1:
-            sino_lines = np.squeeze(sino_lines, axis=0)
-
-        return sino_lines
+        return np.ascontiguousarray(np.stack(sino_lines, axis=-2))
 
     def bp(self, sino: NDArray) -> NDArray:
         """Back-projection of the sinogram to the volume.
-- 
2.43.0


From da1fee9c0d93f660485fa319a828decd2cf09371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 028/136] fix: attenuation of oblique beams does not wrap
 around the last row of the volume

---
 src/corrct/_projector_backends.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 78aa7d1..42cfbbf 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -67,8 +67,7 @@ def compute_attenuation(vol: NDArray, angle_rad: float, invert: bool = False) ->
     def compute_cumsum(vol: NDArray, rot_angle_deg: float):
         vol = skt.rotate(vol, -rot_angle_deg, order=1, clip=False)
 
-        vol += np.roll(vol, 1, axis=-2)
-        vol = np.cumsum(vol / 2, axis=-2)
+        vol = np.cumsum(vol, axis=-2) - vol / 2
 
         return skt.rotate(vol, rot_angle_deg, order=1, clip=False)
 
-- 
2.43.0


From daa1a3bcf8d54c01aa71f364dddf210c75e3b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 029/136] fix: attenuation volumes accept detector angles of
 any real type

---
 src/corrct/physics/attenuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index ecc747f..d2fc68f 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -64,12 +64,12 @@ class AttenuationVolume:
         self.emitted_local = emitted_local
         self.angles_rot_rad = np.array(angles_rot_rad, ndmin=1)
         self.detectors = []
-        if isinstance(angles_det_rad, (int, float, DetectorXRF)):
+        if isinstance(angles_det_rad, (int, float, np.integer, np.floating, DetectorXRF)):
             angles_det_rad = [angles_det_rad]
         for a in angles_det_rad:
             if isinstance(a, DetectorXRF):
                 self.detectors.append(a)
-            elif isinstance(a, float):
+            elif isinstance(a, (int, float, np.integer, np.floating)):
                 self.detectors.append(DetectorXRF(surface_mm2=0, distance_mm=1, angle_rad=a))
             else:
                 raise ValueError(
-- 
2.43.0


From 43f8ab24b3b140402f06f1bd06672246a92b98f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 030/136] fix: projector arguments of a selection of detectors
 (slice, sequence, or array)

---
 src/corrct/physics/attenuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index d2fc68f..d1488dd 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -325,7 +325,7 @@ class AttenuationVolume:
         if det_ind is None:
             det_angles = self._get_detector_angles()
         else:
-            det_angles = self.detectors[det_ind].angle_rad
+            det_angles = self._get_detector_angles()[det_ind]
         return dict(
             att_maps=self.get_maps(roi=roi, rot_ind=rot_ind, det_ind=det_ind, binning=binning), angles_detectors_rad=det_angles
         )
-- 
2.43.0


From 51b9e9c99b3843dd6d0e5023b6cc72c41f4d13af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 031/136] fix: linear attenuation coefficient with a given
 density leaves the compound untouched

---
 src/corrct/physics/attenuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index d1488dd..623fbd3 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -356,7 +356,7 @@ def get_linear_attenuation_coefficient(
         compound = get_compound(compound)
 
     if density is not None:
-        compound["density"] = density
+        compound = {**compound, "density": density}
 
     cmp_cs = get_compound_cross_section(compound, energy_keV)
     return pixel_size_um * CONVERT_UM_TO_CM * compound["density"] * cmp_cs
-- 
2.43.0


From 5d302f7d08b71695f2cb33d6cfd10a73e558284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:28 +0000
Subject: [PATCH 032/136] fix: rotation axis shift given as an array of one
 element

---
 src/corrct/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 377cca1..885bad8 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -651,7 +651,7 @@ def get_prj_geom_parallel(
     if rot_axis_shift_pix is not None:
         rot_axis_shift_pix = np.array(rot_axis_shift_pix)
         if rot_axis_shift_pix.size == 1:
-            prj_geom.set_detector_shifts_vu(cor_pos_u=float(rot_axis_shift_pix))
+            prj_geom.set_detector_shifts_vu(cor_pos_u=float(rot_axis_shift_pix.item()))
         else:
             prj_geom.set_detector_shifts_vu(det_pos_vu=rot_axis_shift_pix)
 
@@ -712,7 +712,7 @@ def get_prj_geom_cone(
     if rot_axis_shift_pix is not None:
         rot_axis_shift_pix = np.array(rot_axis_shift_pix)
         if rot_axis_shift_pix.size == 1:
-            prj_geom.set_detector_shifts_vu(cor_pos_u=float(rot_axis_shift_pix))
+            prj_geom.set_detector_shifts_vu(cor_pos_u=float(rot_axis_shift_pix.item()))
         else:
             prj_geom.set_detector_shifts_vu(det_pos_vu=rot_axis_shift_pix)
 
-- 
2.43.0


From f9a0e6ac845416f8cc2c2bb141f3ceff88258a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 033/136] fix: detector and source positions broadcast over the
 existing number of angles and distances

---
 src/corrct/models.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 885bad8..d840b14 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -207,12 +207,11 @@ class ProjectionGeometry(Geometry):
                 f"angles ({det_pos_vu.shape[-1]}) differ!"
             )
 
-        self.det_pos_xyz = np.zeros((det_pos_vu.shape[-1], 3), dtype=np.float64)
-        self.det_pos_xyz += self.det_u_xyz * det_pos_vu[-1, :].reshape([-1, 1])
+        det_pos_xyz = self.det_u_xyz * det_pos_vu[-1, :].reshape([-1, 1])
         if self.ndim == 3 and det_pos_vu.shape[0] == 2:
-            self.det_pos_xyz += self.det_v_xyz * det_pos_vu[-2, :].reshape([-1, 1])
+            det_pos_xyz = det_pos_xyz + self.det_v_xyz * det_pos_vu[-2, :].reshape([-1, 1])
 
-        self.det_pos_xyz[:, 1] += det_dist_y
+        self.det_pos_xyz = det_pos_xyz + det_dist_y.reshape([-1, 1]) * np.array([0.0, 1.0, 0.0])
 
     def set_source_shifts_vu(self, src_pos_vu: ArrayLike | NDArray | None = None) -> None:
         """
@@ -233,7 +232,7 @@ class ProjectionGeometry(Geometry):
                 f"Current number of angles ({self.src_pos_xyz.shape[-2]}) and new number of angles ({src_pos_vu.shape[-1]}) differ!"
             )
         src_pos_y = self.src_pos_xyz[:, 1].copy()
-        self.src_pos_xyz = np.zeros((src_pos_vu.shape[-1], 3))
+        self.src_pos_xyz = np.zeros((max(src_pos_vu.shape[-1], src_pos_y.size), 3))
         self.src_pos_xyz[:, 0] = src_pos_vu[-1, :]
         self.src_pos_xyz[:, 1] = src_pos_y
         if self.ndim == 3 and src_pos_vu.shape[0] == 2:
-- 
2.43.0


From ee401315dd2df053775f5786251da458f576de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 034/136] fix: detector tilts apply all of the given angles and
 axes

---
 src/corrct/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index d840b14..4a9851c 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -279,6 +279,10 @@ class ProjectionGeometry(Geometry):
                 f"Current shapes: {tilt_axis.shape = }, {angles.shape = }"
             )
 
+        num_tilts = max(angles.shape[0], tilt_axis.shape[0])
+        angles = np.broadcast_to(angles, (num_tilts, 1))
+        tilt_axis = np.broadcast_to(tilt_axis, (num_tilts, 3))
+
         for angle, axis in zip(angles, tilt_axis):
             rotations = spt.Rotation.from_rotvec(angle * axis)  # type: ignore
 
-- 
2.43.0


From c851898b0ba1d3c3312ea4a12e610a99218fb11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 035/136] fix: scaled fields of fan-beam geometries

---
 src/corrct/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 4a9851c..2284195 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -339,7 +339,7 @@ class ProjectionGeometry(Geometry):
             The scaled field.
         """
         field_value = getattr(self, field_name) / self.pix2vox_ratio
-        if self.geom_type.lower() != "cone" and int(self.geom_type[-2]) == 2:
+        if self.ndim == 2:
             return field_value[:, :-1]
         else:
             return field_value
-- 
2.43.0


From 8c1ee2caad254c315bc6c985959a8df3f683499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 036/136] fix: combine the shifts of a single projection

---
 src/corrct/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 2284195..15d496e 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -575,7 +575,7 @@ def combine_shifts_vu(shifts_v: NDArray, shifts_u: NDArray) -> NDArray:
     if shifts_v.size != shifts_u.size:
         raise ValueError(f"Number of vertical shifts ({shifts_v.size}) and horizontal shifts ({shifts_u.size}) should match")
 
-    return np.stack([np.squeeze(shifts_v), np.squeeze(shifts_u)], axis=-2)
+    return np.stack([np.ravel(shifts_v), np.ravel(shifts_u)], axis=-2)
 
 
 def get_rot_axis_dir(rot_axis_dir: str | ArrayLike | NDArray = "clockwise") -> NDArray:
-- 
2.43.0


From e7fb63e21d1608264d371edc74acd25a2754260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 037/136] fix: cone-beam pre-weights use the source-detector
 vector and the pixel centres

---
 src/corrct/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 15d496e..88236ed 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -403,9 +403,9 @@ class ProjectionGeometry(Geometry):
             if self.det_shape_vu is not None and np.any(det_shape_vu != self.det_shape_vu):
                 print("WARNING: overriding the detector shape in the computation of the pre-weights.")
 
-            src2det_xyz = self.det_pos_xyz + self.src_pos_xyz
+            src2det_xyz = self.det_pos_xyz - self.src_pos_xyz
 
-            pixel_coords_vu = [np.linspace(-s / 2, s / 2, int(s)) for s in det_shape_vu]
+            pixel_coords_vu = [np.linspace(-(s - 1) / 2, (s - 1) / 2, int(s)) for s in det_shape_vu]
             pixel_coords_vu = np.meshgrid(*pixel_coords_vu, indexing="ij")
             pixel_coords_vu = [coords[..., None, None] for coords in pixel_coords_vu]
 
-- 
2.43.0


From 4d91c9bf7c2a0d562a9af32d41150a9d7b6b3637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 038/136] fix: cross-correlation of images with an odd width
 (real Fourier transforms)

---
 src/corrct/alignment/fitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 15d500e..f4f310b 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -162,7 +162,7 @@ def fit_shifts_vu_xc(
             cc_f = data_vwu_f * proj_vwu_f.conj()
             if normalize_fourier:
                 cc_f /= np.fmax(np.abs(cc_f), eps)
-            cc_r: NDArrayFloat = local_ifftn(cc_f).real
+            cc_r: NDArrayFloat = local_ifftn(cc_f, s=list(new_fft_shapes), axes=fft_axes).real
 
             f_vals, f_coords = extract_peak_region_nd(cc_r, cc_coords=cc_coords)
             shifts_vu[..., ii_a] = np.array([f_coords[0][1], f_coords[1][1]])
@@ -182,7 +182,7 @@ def fit_shifts_vu_xc(
         ccs_f = data_vwu_f * proj_vwu_f.conj()
         if normalize_fourier:
             ccs_f /= np.fmax(np.abs(ccs_f).max(axis=u_axis, keepdims=True), eps)
-        ccs = local_ifftn(ccs_f, axes=fft_dims).real
+        ccs = local_ifftn(ccs_f, s=list(new_fft_shapes), axes=list(fft_dims)).real
 
         f_vals, f_h = extract_peak_regions_1d(ccs, axis=u_axis, cc_coords=cc_coords[u_axis])
         shifts_vu = f_h[1, :]
@@ -252,7 +252,7 @@ def fit_shifts_zyx_xc(
     cc_f = ref_vol_zyx_f * rec_vol_zyx_f.conj()
     if normalize_fourier:
         cc_f /= np.fmax(np.abs(cc_f), eps)
-    cc: NDArrayFloat = local_ifftn(cc_f).real
+    cc: NDArrayFloat = local_ifftn(cc_f, s=list(new_fft_shapes), axes=list(fft_dims)).real
 
     f_vals, f_coords = extract_peak_region_nd(cc, cc_coords=cc_coords)
     shifts_zyx = np.array([coords[1] for coords in f_coords])
-- 
2.43.0


From 13b316a7e9258282da80f03fcbc23305e353c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 039/136] fix: vertical pre-alignment cross-correlates profiles
 of odd length (real Fourier transforms)

---
 src/corrct/alignment/shifts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index 2c19730..118f740 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -188,7 +188,7 @@ class DetectorShiftsPRE(DetectorShiftsBase):
         if normalize_fourier:
             ccs_f /= np.fmax(np.abs(ccs_f).max(axis=-2, keepdims=True), eps)
 
-        cross_corr = local_ifft(ccs_f, axis=-2).real
+        cross_corr = local_ifft(ccs_f, n=data_vw_p.shape[-2], axis=-2).real
 
         cc_coords = np.fft.fftfreq(cross_corr.shape[-2], 1 / cross_corr.shape[-2])
         f_vals, fc_ax = fitting.extract_peak_regions_1d(cross_corr, axis=-2, cc_coords=cc_coords)
-- 
2.43.0


From d7c33941810ce4520789c379c59cb4efc09cf277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 040/136] fix: sum-of-absolute-differences shifts without
 padding

---
 src/corrct/alignment/fitting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index f4f310b..a9bcd8a 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -62,6 +62,9 @@ def fit_shifts_u_sad(
         padding[-1, :] = (search_range, search_range)
         pad_data_wu = np.pad(data_wu, pad_width=padding, mode="edge")
         pad_proj_wu = np.pad(proj_wu, pad_width=padding, mode="constant")
+    else:
+        pad_data_wu = data_wu
+        pad_proj_wu = proj_wu
 
     fft_proj_wu = np.fft.fft2(pad_proj_wu)
 
-- 
2.43.0


From c34d26ae1f53e0bb58c214fe030d22cb4473f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 041/136] fix: 2D sub-pixel maximum of regions larger than 3x3
 is in pixels

---
 src/corrct/alignment/fitting.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index a9bcd8a..c64facf 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -677,11 +677,10 @@ def refine_max_position_2d(
     if not (len(f_vals.shape) == 2):
         raise ValueError(f"The fitted values should form a 2-dimensional array. Array of shape: {f_vals.shape} was given.")
     if fy is None:
-        fy = np.linspace(-1, 1, f_vals.shape[0])
-        y_scaling = (f_vals.shape[0] - 1) / 2
+        fy_half_size = (f_vals.shape[0] - 1) / 2
+        fy = np.linspace(-fy_half_size, fy_half_size, f_vals.shape[0])
     else:
         fy = np.array(fy, ndmin=1)
-        y_scaling = 1.0
         if not (len(fy.shape) == 1 and np.all(fy.size == f_vals.shape[0])):
             raise ValueError(
                 f"Vertical coordinates should have the same length as values matrix."
@@ -689,11 +688,10 @@ def refine_max_position_2d(
             )
 
     if fx is None:
-        fx = np.linspace(-1, 1, f_vals.shape[1])
-        x_scaling = (f_vals.shape[1] - 1) / 2
+        fx_half_size = (f_vals.shape[1] - 1) / 2
+        fx = np.linspace(-fx_half_size, fx_half_size, f_vals.shape[1])
     else:
         fx = np.array(fx, ndmin=1)
-        x_scaling = 1.0
     if not (len(fx.shape) == 1 and np.all(fx.size == f_vals.shape[1])):
         raise ValueError(
             f"Horizontal coordinates should have the same length as values matrix."
@@ -706,7 +704,6 @@ def refine_max_position_2d(
 
     coords = np.array([np.ones(f_vals.size), fy, fx, fy * fx, fy**2, fx**2])
     coeffs = np.linalg.lstsq(coords.T, f_vals.flatten(), rcond=None)[0]
-    coeffs *= [1, y_scaling, x_scaling, y_scaling * x_scaling, y_scaling**2, x_scaling**2]
 
     # For a 1D parabola `f(x) = ax^2 + bx + c`, the vertex position is:
     # x_v = -b / 2a. For a 2D parabola, the vertex position is:
-- 
2.43.0


From 742f48cfaace15dc2e3ddc63774b53d185d68121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 042/136] fix: vertical centre of fitted tilted ellipses

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index c64facf..308b49d 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -946,7 +946,7 @@ def fit_ellipse_parameters(
         coeffs[4] *= p_v_scaling**2
 
     u = (coeffs[1] - coeffs[2] * coeffs[3]) / (coeffs[0] - coeffs[3] ** 2)
-    v = (coeffs[0] * coeffs[2] - coeffs[1] * coeffs[3]) / (coeffs[0] - coeffs[2] * coeffs[3])
+    v = (coeffs[0] * coeffs[2] - coeffs[1] * coeffs[3]) / (coeffs[0] - coeffs[3] ** 2)
 
     a = coeffs[0] / (coeffs[0] * u**2 + v**2 + 2 * coeffs[3] * u * v - coeffs[4])
     b = a / coeffs[0]
-- 
2.43.0


From 089e6a12140b49cb82cf263b6d55f65753bd0044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 043/136] fix: horizontal extremes of tilted ellipses

---
 src/corrct/alignment/fitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 308b49d..4c567f6 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -1030,8 +1030,9 @@ class Ellipse(Trajectory):
             A tuple containing the most extreme U coordinates (u_min, u_max).
         """
         # Calculate the extreme U coordinates
-        u_min = self.u - np.sqrt(1 / self.a)
-        u_max = self.u + np.sqrt(1 / self.a)
+        half_size_u = np.sqrt(self.b / (self.a * self.b - self.c**2))
+        u_min = self.u - half_size_u
+        u_max = self.u + half_size_u
 
         return u_min, u_max
 
-- 
2.43.0


From 49cd8c25cb246107622b6dc80a04d6ca7a04ad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 044/136] fix: parabolic minimum of constant values

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 4c567f6..f798f25 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -791,7 +791,7 @@ def fit_parabola_min(
     # stable than previous solutions (according to numpy).
     poly = Polynomial.fit(fx_fit, f_vals_fit, deg=2)
     coeffs = poly.convert().coef
-    if coeffs[2] <= 0:
+    if len(coeffs) < 3 or coeffs[2] <= 0:
         print("WARNING: fitted curve is concave. Returning minimum measured point.")
         return fun_x[min_pos], fun_vals[min_pos], None
 
-- 
2.43.0


From b5d3c60d0f6dc2b88cf5b1f1e7ba12ded3fd1bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 045/136] fix: camera tilt of perfectly aligned images

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index f798f25..e602e3b 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -377,7 +377,7 @@ def fit_camera_tilt_angle(img_1: NDArray, img_2: NDArray, pad_u: bool = False, f
     half_img_size = (img_shape[-2] - 1) / 2
     cc_v_coords = np.linspace(-half_img_size, half_img_size, img_shape[-2])
     poly_slope = Polynomial.fit(cc_v_coords, fitted_cors, deg=1)
-    b, a = poly_slope.convert().coef
+    b, a = np.pad(poly_slope.convert().coef, (0, 2))[:2]
 
     if fit_l1:
 
-- 
2.43.0


From 1997c3bac543b7dc93315f23060d82a00b44f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 046/136] fix: cross-correlation shifts with the images stacked
 along the last axis

---
 src/corrct/alignment/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index e602e3b..af543a6 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -137,7 +137,7 @@ def fit_shifts_vu_xc(
     old_fft_shapes = np.array(np.array(data_vwu.shape)[fft_dims], ndmin=1, dtype=int)
     new_fft_shapes = old_fft_shapes.copy()
     if pad_u:
-        new_fft_shapes[u_axis] *= 2
+        new_fft_shapes[-1] *= 2
     cc_coords = [np.fft.fftfreq(s, 1 / s) for s in new_fft_shapes]
 
     if margin > 0:
@@ -187,7 +187,7 @@ def fit_shifts_vu_xc(
             ccs_f /= np.fmax(np.abs(ccs_f).max(axis=u_axis, keepdims=True), eps)
         ccs = local_ifftn(ccs_f, s=list(new_fft_shapes), axes=list(fft_dims)).real
 
-        f_vals, f_h = extract_peak_regions_1d(ccs, axis=u_axis, cc_coords=cc_coords[u_axis])
+        f_vals, f_h = extract_peak_regions_1d(ccs, axis=u_axis, cc_coords=cc_coords[-1])
         shifts_vu = f_h[1, :]
 
         if decimals > 0:
-- 
2.43.0


From fbd7380fe47bd81702ce272011ca587280df1031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 047/136] fix: cross-correlation shifts are returned in the
 order of the given angles

---
 src/corrct/alignment/shifts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index 118f740..cd826ee 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -410,7 +410,7 @@ class DetectorShiftsXC(DetectorShiftsBase):
 
         shifts_vu[-1] = shifts_u
 
-        return shifts_vu[:, list(angles_order)]
+        return shifts_vu[:, np.argsort(angles_order)]
 
     def fit_u_180(self) -> float:
         """Find the center-of-rotation, using the 0 and 180 degrees projections.
-- 
2.43.0


From 223faaf4c688c1eacc42ca1459a7843b62481d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 048/136] fix: filter the cross-correlation shifts of sinograms
 that exceed the maximum

---
 src/corrct/alignment/shifts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index cd826ee..d6bd2da 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -531,6 +531,7 @@ class DetectorShiftsXC(DetectorShiftsBase):
             shifts_vu = fitting.fit_shifts_vu_xc(data_vwu, proj_vwu, decimals=self.decimals, **xc_opts)
             # shifts_vu = fitting.fit_shifts_u_sad(data_vwu, proj_vwu, decimals=self.decimals)
 
-            shifts_vu_all[ii_d] = _filter_shifts(shifts_vu, self.max_shifts)
+            max_shifts = self.max_shifts if shifts_vu.ndim > 1 else self.max_shifts[-1]
+            shifts_vu_all[ii_d] = _filter_shifts(shifts_vu, max_shifts)
 
         return np.mean(shifts_vu_all, axis=0)
-- 
2.43.0


From a48b1f0e2b8cfc01e3491b1fe9d2a75b1bacbbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 049/136] fix: loading another class into a ConeBeamGeometry
 raises the documented ValueError

---
 src/corrct/alignment/cone_beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/alignment/cone_beam.py b/src/corrct/alignment/cone_beam.py
index 7ebbded..95fe1d8 100644
--- a/src/corrct/alignment/cone_beam.py
+++ b/src/corrct/alignment/cone_beam.py
@@ -240,10 +240,10 @@ class ConeBeamGeometry:
             raise ValueError("Initialization from JSON: More than one class instance passed.")
 
         class_name = list(data_tree.keys())[0]
-        if list(data_tree.keys())[0] != self.__class__.__name__:
+        if class_name != self.__class__.__name__:
             raise ValueError(
                 f"Initialization from JSON: expecting {self.__class__.__name__} class instance,"
-                f" but {data_tree.keys()[0]} passed."
+                f" but {class_name} passed."
             )
 
         data_dict = data_tree[class_name]
-- 
2.43.0


From d9342c6cdfa32fd55b218cc457cc286e7b404cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 050/136] fix: intersection of a line with a scalar value
 returns its coordinates

---
 src/corrct/processing/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 681e980..96594f5 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -324,8 +324,8 @@ def lines_intersection(
     x3 = 0.0
     x4 = 1.0
     if line_2.size == 1:
-        y3 = line_2
-        y4 = line_2
+        y3 = line_2[0]
+        y4 = line_2[0]
     else:
         y3 = line_2[point_l]
         y4 = line_2[point_l + 1]
-- 
2.43.0


From 0c2782cf8df9b0c8bfb8a6c69dfd774363f6a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 051/136] fix: normalized cross-correlation only shifts the
 correlated axes

---
 src/corrct/processing/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 96594f5..6b5963d 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -429,7 +429,7 @@ def norm_cross_corr(
     else:
         cc_n = cc / (np.linalg.norm(img1) * np.linalg.norm(img2))
 
-    cc_n = np.fft.ifftshift(cc_n)
+    cc_n = np.fft.ifftshift(cc_n, axes=tuple(axes))
 
     if compute_profile:
         cc_l = azimuthal_integration(cc_n, axes=axes, domain="fourier")
-- 
2.43.0


From 73866e816109c9f488e59b1e6485bce2a5411dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 052/136] fix: reordering masks keeps the buckets of different
 images apart

---
 src/corrct/struct_illum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index ad2f37c..51a97ba 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -55,7 +55,7 @@ def reorder_masks(masks: NDArray, buckets: NDArray, shift: int) -> tuple[NDArray
     masks = masks.reshape([-1, *masks_shape[-2:]])
 
     masks = np.roll(masks, -shift, axis=0)
-    buckets = np.roll(buckets, -shift)
+    buckets = np.roll(buckets, -shift, axis=-1)
 
     return masks.reshape(masks_shape), buckets
 
-- 
2.43.0


From 667dee5ec8db2ba3d10f5f220fd650a801922d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 053/136] fix: possible MURA mask sizes include the size of the
 field-of-view

---
 src/corrct/struct_illum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 51a97ba..6a76ae5 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -840,7 +840,7 @@ class MaskGeneratorMURA(MaskGenerator):
             return not np.any(div_val == 0)
 
         max_possible_val = (fov_size - 1) // 4
-        test_values = np.arange(1, max_possible_val) * 4 + 1
+        test_values = np.arange(1, max_possible_val + 1) * 4 + 1
         primes = np.array([test_prime(x) for x in test_values])
         return test_values[primes]
 
-- 
2.43.0


From f803dc9b5a0e435776a93084b1b8e7bf21b4a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 054/136] fix: generate mask collections over 1D fields-of-view

---
 src/corrct/struct_illum.py | 39 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 6a76ae5..595d7d9 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -493,19 +493,19 @@ class MaskGenerator(ABC):
         """
         if shift_type.lower() == "random":
             num_chosen_buckets = np.ceil(self.num_pixels * buckets_fraction).astype(int)
-            disp_v, disp_u = self.get_random_shifts(num_chosen_buckets)
+            disps = self.get_random_shifts(num_chosen_buckets)
         elif shift_type.lower() == "interval":
             interval = np.ceil(1 / buckets_fraction).astype(int)
-            disp_v, disp_u = self.get_interval_shifts(interval)
-            num_chosen_buckets = len(disp_v)
+            disps = self.get_interval_shifts(interval)
+            num_chosen_buckets = len(disps[0])
         elif shift_type.lower() == "sequential":
             num_chosen_buckets = np.ceil(self.num_pixels * buckets_fraction).astype(int)
-            disp_v, disp_u = self.get_sequential_shifts(num_chosen_buckets)
+            disps = self.get_sequential_shifts(num_chosen_buckets)
         else:
             raise ValueError(f'Wrong shift_type: "{shift_type}". Available options: random | interval | sequential.')
 
-        gen_masks_enc = self._generate_mask_shifts(disp_v, disp_u, mask_encoding=True)
-        gen_masks_dec = self._generate_mask_shifts(disp_v, disp_u, mask_encoding=False) if self._enc_dec_mismatch else None
+        gen_masks_enc = self._generate_mask_shifts(*disps, mask_encoding=True)
+        gen_masks_dec = self._generate_mask_shifts(*disps, mask_encoding=False) if self._enc_dec_mismatch else None
 
         print(
             f"Using {num_chosen_buckets} masks/buckets over {self.max_buckets} (max available), and {self.num_pixels} pixels"
@@ -539,17 +539,13 @@ class MaskGenerator(ABC):
             The shifted mask.
         """
 
-    def _generate_mask_shifts(
-        self, shifts_v: Sequence | NDArray, shifts_u: Sequence | NDArray, mask_encoding: bool = True
-    ) -> NDArray:
+    def _generate_mask_shifts(self, *shifts: Sequence | NDArray, mask_encoding: bool = True) -> NDArray:
         """Produce all the masks.
 
         Parameters
         ----------
-        shifts_v : tuple | list | NDArray
-            List of all the vertical shifts.
-        shifts_u : tuple | list | NDArray
-            List of all the horizontal shifts.
+        *shifts : tuple | list | NDArray
+            Lists of all the shifts, one per axis of the field-of-view.
         mask_encoding : bool, optional
             Are the masks encoding (False = decoding). The default is True.
         abs_fraction : float, optional
@@ -560,11 +556,11 @@ class MaskGenerator(ABC):
         NDArray
             The collection of all the shifted masks.
         """
-        masks = [self.generate_shifted_mask([v, u], mask_encoding) for v, u in zip(shifts_v, shifts_u)]
+        masks = [self.generate_shifted_mask(inds, mask_encoding) for inds in zip(*shifts)]
         return np.stack(masks, axis=0)  # .reshape([*self.shift_shape, *self.fov_shape])
 
     def get_interval_shifts(
-        self, interval: int | Sequence[int] | NDArray, axes_order: Sequence[int] = (-2, -1)
+        self, interval: int | Sequence[int] | NDArray, axes_order: Sequence[int] | None = None
     ) -> Sequence[NDArray]:
         """Produce shifts for the "interval" shift type.
 
@@ -573,13 +569,16 @@ class MaskGenerator(ABC):
         interval : int | tuple(int, int) | list(int, int)
             The shift interval.
         axes_order : int | tuple | list, optional
-            Order of the axes to shift. The default is (-2, -1).
+            Order of the axes to shift. The default (None) is all the axes, in order: (-2, -1) for 2D fields-of-view.
 
         Returns
         -------
         tuple
             The collection of shifts.
         """
+        if axes_order is None:
+            axes_order = range(-len(self.shape_shifts), 0)
+
         interval = np.array(interval, dtype=int)
         if interval.size == 1:
             interval = np.tile(interval, len(axes_order))
@@ -588,7 +587,7 @@ class MaskGenerator(ABC):
         disps = np.meshgrid(*disps, indexing="ij")
         return [disp.flatten() for disp in disps]
 
-    def get_random_shifts(self, num_shifts: int, axes_order: Sequence[int] = (-2, -1)) -> Sequence[NDArray]:
+    def get_random_shifts(self, num_shifts: int, axes_order: Sequence[int] | None = None) -> Sequence[NDArray]:
         """Produce shifts for the "random" shift type.
 
         Parameters
@@ -609,7 +608,7 @@ class MaskGenerator(ABC):
         perms = np.random.permutation(np.prod(self.shape_shifts))[:num_shifts]
         return [disp[perms] for disp in disps]
 
-    def get_sequential_shifts(self, num_shifts: int | None = None, axes_order: Sequence[int] = (-2, -1)) -> Sequence[NDArray]:
+    def get_sequential_shifts(self, num_shifts: int | None = None, axes_order: Sequence[int] | None = None) -> Sequence[NDArray]:
         """Produce shifts for the "sequential" shift type.
 
         Parameters
@@ -617,7 +616,7 @@ class MaskGenerator(ABC):
         num_shifts : int, optional
             Number of shifts. The default is None.
         axes_order : tuple | list | NDArray, optional
-            Order of the axes to shift. The default is (-2, -1).
+            Order of the axes to shift. The default (None) is all the axes, in order.
 
         Returns
         -------
@@ -664,7 +663,7 @@ class MaskGeneratorPoint(MaskGenerator):
             The shifted mask.
         """
         mask = np.zeros(self.shape_fov, dtype=self.dtype)
-        mask[mask_inds_vu[0], mask_inds_vu[1]] = 1.0
+        mask[tuple(mask_inds_vu)] = 1.0
         return self._apply_transmission(mask)
 
 
-- 
2.43.0


From c8f759e29d3d5a9e23151332e5dbd57447f0413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 055/136] fix: ghost imaging projectors with 1D masks

---
 src/corrct/struct_illum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 595d7d9..da1ca65 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -867,7 +867,7 @@ class ProjectorGhostImaging(ProjectorOperator):
         self._axes_fov = np.arange(-len(self.mc.shape_fov), 0)
         self.row_sum = np.sqrt(np.abs(self.mc.masks_enc * self.mc.masks_dec)).sum(axis=tuple(self._axes_fov))
 
-        self.vol_shape = self.mc.masks_enc.shape[-2:]
+        self.vol_shape = self.mc.shape_fov
         self.prj_shape = np.array(self.mc.num_buckets, ndmin=1)
         super().__init__()
 
@@ -977,7 +977,7 @@ class ProjectorGhostImaging(ProjectorOperator):
         rec_f_shape = np.array(image_f.shape)[list(self._axes_fov)]
 
         sampling_filter = np.ones(rec_f_shape, dtype=image.dtype) / sampling_ratio
-        sampling_filter[0, 0] = 1
+        sampling_filter[(0,) * sampling_filter.ndim] = 1
         image_f *= sampling_filter
 
         return np.fft.irfftn(image_f, s=self.mc.shape_fov, axes=tuple(self._axes_fov), norm="ortho")
-- 
2.43.0


From 7a7d39c052d93d4f869fe1113cea57965b33b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 056/136] fix: ghost tomography projectors have the shapes of
 the volume and of the buckets of each angle

---
 src/corrct/struct_illum.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index da1ca65..6a03c9a 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -1036,16 +1036,20 @@ class ProjectorGhostTomography(ProjectorGhostImaging):
     def __init__(self, mask_collection: MaskCollection | NDArray, tomo_proj: ProjectorOperator, backend: str = "torch"):
         super().__init__(mask_collection, backend)
 
-        tomo_prj_shape = np.array([*tomo_proj.dir_shape[:-2], tomo_proj.dir_shape[-1]])
+        tomo_prj_shape = np.array([*tomo_proj.adj_shape[:-2], tomo_proj.adj_shape[-1]])
         # Special care should be given to support when implemented
         if len(tomo_prj_shape) != self.mc.mask_dims or any(tomo_prj_shape != self.mc.shape_fov):
             raise ValueError(
-                f"Tomographic projection shape {tomo_prj_shape} ([V]U, from: {self.tomo_proj.dir_shape} [V]WU)"
+                f"Tomographic projection shape {tomo_prj_shape} ([V]U, from: {tomo_proj.adj_shape} [V]WU)"
                 f" does not match ghost imaging projector shape {self.mc.shape_fov} ([V]U, from: {self.masks_enc.shape} M[V]U)"
             )
 
         self.tomo_proj = tomo_proj
 
+        self.vol_shape = tomo_proj.dir_shape
+        self.prj_shape = np.array([tomo_proj.adj_shape[-2], self.mc.num_buckets])
+        super(ProjectorGhostImaging, self).__init__()
+
     def fp(self, vol_zyx: NDArray) -> NDArray:
         """Compute forward-projection (prediction) of the bucket values.
 
@@ -1060,8 +1064,8 @@ class ProjectorGhostTomography(ProjectorGhostImaging):
             The predicted bucket values.
         """
         imgs_vwu = self.tomo_proj.fp(vol_zyx)
-        imgs_wvu = np.squeeze(np.array(imgs_vwu, ndmin=3).swapaxes(-3, -2))
-        return super().fp(imgs_wvu)
+        imgs_wvu = np.moveaxis(imgs_vwu, -2, 0)
+        return super().fp(imgs_wvu).reshape(self.prj_shape)
 
     def bp(self, bucket_vals: NDArray) -> NDArray:
         """Compute back-projection of the bucket values.
@@ -1076,8 +1080,8 @@ class ProjectorGhostTomography(ProjectorGhostImaging):
         NDArray
             Back-projected volume.
         """
-        imgs_wvu = super().bp(bucket_vals)
-        imgs_vwu = np.squeeze(np.array(imgs_wvu, ndmin=3).swapaxes(-3, -2))
+        imgs_wvu = super().bp(bucket_vals.reshape(self.prj_shape))
+        imgs_vwu = np.moveaxis(imgs_wvu, 0, -2)
         return self.tomo_proj.bp(imgs_vwu)
 
     def fbp(self, bucket_vals: NDArray, use_lstsq: bool = True, adjust_scaling: bool = False) -> NDArray:
@@ -1098,6 +1102,6 @@ class ProjectorGhostTomography(ProjectorGhostImaging):
             The reconstructed image.
         """
         imgs_wvu = [super().fbp(bs, use_lstsq, adjust_scaling) for bs in bucket_vals]
-        imgs_vwu = np.squeeze(np.array(imgs_wvu, ndmin=3).swapaxes(-3, -2))
+        imgs_vwu = np.moveaxis(np.array(imgs_wvu), 0, -2)
         solver_fbp = FBP()
         return solver_fbp(self.tomo_proj, imgs_vwu)
-- 
2.43.0


From ad17de1416ee0a407811f8ce548a3c6a895a105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 057/136] fix: possible MURA mask sizes of small fields-of-view
 are none, rather than an error

---
 src/corrct/struct_illum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 6a03c9a..9429383 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -840,7 +840,7 @@ class MaskGeneratorMURA(MaskGenerator):
 
         max_possible_val = (fov_size - 1) // 4
         test_values = np.arange(1, max_possible_val + 1) * 4 + 1
-        primes = np.array([test_prime(x) for x in test_values])
+        primes = np.array([test_prime(x) for x in test_values], dtype=bool)
         return test_values[primes]
 
 
-- 
2.43.0


From 4a879a4da0129fbf0c9934d29ee96ada080141d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:09 +0000
Subject: [PATCH 058/136] fix: minimum fit of constant loss values

---
 src/corrct/param_tuning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index 8768981..15a8bbb 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -320,7 +320,7 @@ def fit_func_min(
     # stable than previous solutions (according to numpy).
     poly = Polynomial.fit(lams_reg_fit, f_vals_fit, deg=2)
     coeffs = poly.convert().coef
-    if coeffs[2] <= 0:
+    if len(coeffs) < 3 or coeffs[2] <= 0:
         warn("Fitted curve is concave. Returning minimum measured point.")
         return hp_vals[min_pos], f_vals[min_pos]
 
-- 
2.43.0


From fba5ee7c572daf147d767521e8390ef1cb089787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:09 +0000
Subject: [PATCH 059/136] fix: plot of the reconstruction errors

---
 src/corrct/param_tuning.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index 15a8bbb..6202775 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -860,12 +860,13 @@ class BaseParameterTuning(ABC):
             axs[1].set_xscale("log", nonpositive="clip")  # type: ignore
             axs[1].plot(hp_vals, err_l2, label="Error - l2-norm ^ 2")  # type: ignore
             axs[1].legend()  # type: ignore
-            for tl in axs.get_xticklabels():
-                tl.set_fontsize(13)
-            for tl in axs.get_yticklabels():
-                tl.set_fontsize(13)
-            axs.set_xlabel(r"$\lambda$ values", fontsize=16)
-            axs.yaxis.set_major_formatter(StrMethodFormatter("{x:.1e}"))
+            for ax in axs:  # type: ignore
+                for tl in ax.get_xticklabels():
+                    tl.set_fontsize(13)
+                for tl in ax.get_yticklabels():
+                    tl.set_fontsize(13)
+                ax.yaxis.set_major_formatter(StrMethodFormatter("{x:.1e}"))
+            axs[-1].set_xlabel(r"$\lambda$ values", fontsize=16)  # type: ignore
             fig.tight_layout()
             plt.show(block=False)
 
-- 
2.43.0


From b58a181210db6c5079b1a47403f0cc9f5c2ae3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:40 +0000
Subject: [PATCH 060/136] fix: cross-validation loss of solves that stop before
 the last iteration

---
 src/corrct/param_tuning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index 6202775..b042f24 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -1231,7 +1231,7 @@ class CrossValidation(BaseParameterTuning):
             recs_ii, recs_info_ii, perf_batch_ii = self.process_hp_vals(
                 hp_vals, init_fun_kwds=init_fun_kwds, exec_fun_kwds=exec_fun_kwds
             )
-            f_vals[ii_avg] = np.array([info.residuals_cv_rel[-1] for info in recs_info_ii])
+            f_vals[ii_avg] = np.array([info.residuals_cv_rel[info.iterations - 1] for info in recs_info_ii])
 
             if return_all:
                 results.append((recs_ii, recs_info_ii, perf_batch_ii))
-- 
2.43.0


From 27290ae7ad42670cb6371c3be64ef5689ed14303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 061/136] fix: Fourier shifts of projections with odd widths

---
 src/corrct/processing/pre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index d2d7e6b..74ed74c 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -170,7 +170,7 @@ def shift_proj_stack(data_vwu: NDArray, shifts: NDArray, use_fft: bool = False)
             img = data_vwu[..., ii, :]
             img_f = np.fft.rfftn(img)
             img_f = fourier_shift(img_f, shifts[..., ii], n=img.shape[-1])
-            new_data[..., ii, :] = np.fft.irfftn(img_f)
+            new_data[..., ii, :] = np.fft.irfftn(img_f, s=img.shape, axes=range(img.ndim))
         else:
             new_data[..., ii, :] = shift(data_vwu[..., ii, :], shifts[..., ii], order=1, mode="nearest")
 
-- 
2.43.0


From 6c1559929ef309548a9c274d1c3d684af9e74f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 062/136] fix: background from a margin on the first side only

---
 src/corrct/processing/pre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index 74ed74c..715a2b5 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -295,7 +295,7 @@ def background_from_margin(
             background = np.tile(background[None, ...], [data_vwu.shape[-3], 1, 1])
         return background
     else:
-        sum_vals = data_vwu[..., : margin[0]].sum(axis=-1) + data_vwu[..., -margin[1] :].sum(axis=-1)
+        sum_vals = data_vwu[..., : margin[0]].sum(axis=-1) + data_vwu[..., data_shape_u - margin[1] :].sum(axis=-1)
         background: NDArray = sum_vals / margin.sum(axis=-1)
 
         if data_vwu.ndim > 2:
-- 
2.43.0


From 631c589e4cca3dbe44f9c75f7ea722013d9be754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 063/136] fix: destriping filters along the given angle axis

---
 src/corrct/processing/pre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index 715a2b5..82ca2cd 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -441,7 +441,7 @@ def destripe_wlf_vwu(
                 continue
             coeff_f = np.fft.rfft(coeffs_l_wl, axis=angle_axis)
             filt_f = 1 - np.exp(-(np.fft.rfftfreq(coeffs_l_wl.shape[angle_axis]) ** 2) / (2 * sigma**2))
-            coeff_f *= filt_f[:, None]
+            coeff_f *= np.moveaxis(filt_f.reshape([*[1] * (data.ndim - 1), -1]), -1, angle_axis)
             coeffs[ii_l][wl_label] = np.fft.irfft(coeff_f, axis=angle_axis, n=coeffs_l_wl.shape[angle_axis])
 
     data = pywt.iswtn(coeffs, wavelet=wavelet, axes=other_axes)
-- 
2.43.0


From 49ee4a90d701974c23cddd671cb98846ef68a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 064/136] fix: flat-field correction averages stacks of darks

---
 src/corrct/processing/pre.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index 82ca2cd..c4079cd 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -94,6 +94,8 @@ def apply_flat_field(
 
     if darks_wvu is not None:
         darks_wvu = np.ascontiguousarray(darks_wvu, dtype=dtype)
+        if darks_wvu.ndim == 3:
+            darks_wvu = np.mean(darks_wvu, axis=0)
         projs_wvu = projs_wvu - darks_wvu
         flats_wvu = flats_wvu - darks_wvu
 
-- 
2.43.0


From adcbc7ab19ebab00055fe8b1a4106f7d4e38a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 065/136] fix: tapered circular masks without room for the
 taper are no longer NaN

---
 src/corrct/processing/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 6b5963d..bf624cb 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -111,7 +111,7 @@ def circular_mask(
 
         if taper_func.lower() == "cos":
             cut_off_radius = np.min(vol_shape_zxy_s[coords_ball]) / (cut_off_denom * super_sampling) + cut_off_offset
-            cut_off_size = cut_off_radius - max_radius
+            cut_off_size = np.fmax(cut_off_radius - max_radius, eps)
             outter_vals = np.cos(np.fmax(dists - max_radius, 0) / cut_off_size * np.pi) / 2 + 0.5
             mask = (outter_vals * (dists < cut_off_radius)).astype(dtype)
         else:
-- 
2.43.0


From fb44482ace4e311163d8b4840468ffe373a7e52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 066/136] fix: shape of circular masks along one axis

---
 src/corrct/processing/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index bf624cb..df78cec 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -85,7 +85,7 @@ def circular_mask(
 
     coords = np.stack(coords, axis=0)
     if coords_ball.size == 1:
-        dists = np.abs(coords[coords_ball, ...])
+        dists = np.abs(coords[coords_ball[0], ...])
     else:
         dists = np.linalg.norm(coords[coords_ball, ...], axis=0, ord=ball_norm)
 
-- 
2.43.0


From 77589fbd44f385e798a98a68d1cd67e522ccda35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 067/136] fix: power spectra and FRCs of volumes with axes of
 size one

---
 src/corrct/processing/post.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/post.py b/src/corrct/processing/post.py
index bddb943..3d9166f 100644
--- a/src/corrct/processing/post.py
+++ b/src/corrct/processing/post.py
@@ -98,7 +98,7 @@ def power_spectrum(
 
     if taper_ratio is not None:
         taper_size = float(taper_ratio * np.mean(axes_shape))
-        vol_mask = circular_mask(img_shape, coords_ball=axes, radius_offset=-taper_size, taper_func="cos")
+        vol_mask = circular_mask(img_shape, coords_ball=axes, radius_offset=-taper_size, taper_func="cos", squeeze=False)
         img = img * vol_mask
 
     img_f = np.fft.fftn(img, axes=axes)
@@ -206,7 +206,7 @@ def compute_frc(
 
     if taper_ratio is not None:
         taper_size = float(taper_ratio * np.mean(axes_shape))
-        vol_mask = circular_mask(img1_shape, coords_ball=axes, radius_offset=-taper_size, taper_func="cos")
+        vol_mask = circular_mask(img1_shape, coords_ball=axes, radius_offset=-taper_size, taper_func="cos", squeeze=False)
         img1 = img1 * vol_mask
         img2 = img2 * vol_mask
 
-- 
2.43.0


From d65fb722962c54bf3a9a55f2a73d32414caaf459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 068/136] fix: variance weights with masks of any type

---
 src/corrct/processing/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/noise.py b/src/corrct/processing/noise.py
index 4d75ccb..084521c 100644
--- a/src/corrct/processing/noise.py
+++ b/src/corrct/processing/noise.py
@@ -128,7 +128,7 @@ def compute_variance_weight(
 
     vals = variance.flatten()
     if mask is not None:
-        vals = vals[mask.flatten()]
+        vals = vals[mask.flatten() > 0]
 
     sorted_variances = np.sort(vals)
     percentiles_variances = np.cumsum(sorted_variances) / np.sum(sorted_variances)
-- 
2.43.0


From 0e67fa932c57356d5e032e9a404924934560e7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 069/136] fix: XRF detectors accept arrays of distances

---
 src/corrct/physics/xrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/physics/xrf.py b/src/corrct/physics/xrf.py
index 3504470..4cccdab 100644
--- a/src/corrct/physics/xrf.py
+++ b/src/corrct/physics/xrf.py
@@ -225,7 +225,7 @@ class DetectorXRF:
     def __post_init__(self):
         if self.surface_mm2 < 0.0:
             raise ValueError(f"Surface cannot be negative, but {self.surface_mm2} was passed")
-        if self.distance_mm <= 0.0:
+        if np.any(np.asarray(self.distance_mm) <= 0.0):
             raise ValueError(f"The distance needs to be positive, but {self.distance_mm} was passed")
 
     @property
-- 
2.43.0


From d2ad54b7dc28bc6a41e3d75a7bdf2480d3b7e013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 070/136] fix: average energy of lines that an element does not
 have is zero, and not NaN

---
 src/corrct/physics/xrf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/physics/xrf.py b/src/corrct/physics/xrf.py
index 4cccdab..cb08119 100644
--- a/src/corrct/physics/xrf.py
+++ b/src/corrct/physics/xrf.py
@@ -206,7 +206,8 @@ def get_energy(
 
     if compute_average:
         rates = get_radiation_rate(element, lines_list)
-        energy_keV = float(np.sum(energy_keV * rates / np.sum(rates)))
+        total_rate = np.sum(rates)
+        energy_keV = float(np.sum(energy_keV * rates / total_rate)) if total_rate > 0 else 0.0
 
     if verbose:
         print(f"{el_sym}-{lines} emission energy (keV):", energy_keV, "\n")
-- 
2.43.0


From 02241cd0a3189d412fb115a27ad7d39b4b3b1277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 071/136] fix: detector parallax check uses the sample size in
 mm

---
 src/corrct/physics/materials.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/physics/materials.py b/src/corrct/physics/materials.py
index a87974f..682d882 100644
--- a/src/corrct/physics/materials.py
+++ b/src/corrct/physics/materials.py
@@ -13,7 +13,7 @@ import numpy as np
 from numpy.typing import DTypeLike, NDArray
 
 from corrct.physics import xrf  # noqa: F401, F402
-from corrct.physics.units import energy_to_wlength
+from corrct.physics.units import ConversionMetric, energy_to_wlength
 from corrct.physics.xraylib_helper import get_compound, get_compound_cross_section, get_element_number, xraylib
 
 
@@ -148,13 +148,13 @@ class VolumeMaterial:
         return mass_fraction
 
     def _check_parallax_detector(self, detector: xrf.DetectorXRF, tolerance: float = 1e-2) -> bool:
-        half_sample_size = np.max(self.voxel_size_cm * self.shape) / 2
+        half_sample_size_mm = np.max(self.voxel_size_cm * self.shape) / 2 * ConversionMetric.convert("cm", "mm")
 
         if isinstance(detector.distance_mm, float) or (
             isinstance(detector.distance_mm, np.ndarray) and detector.distance_mm.size == 1
         ):
             dets = cp.deepcopy(detector)
-            dets.distance_mm = dets.distance_mm + np.array([-half_sample_size, half_sample_size])
+            dets.distance_mm = dets.distance_mm + np.array([-half_sample_size_mm, half_sample_size_mm])
         else:
             dets = detector
 
-- 
2.43.0


From e33e0ea6992feb7bd5dc156d2a467001a5125b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 072/136] fix: only the borders of the voxels weigh half in
 pencil beam profiles

---
 src/corrct/physics/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/physics/__init__.py b/src/corrct/physics/__init__.py
index cd6ef85..84798b5 100644
--- a/src/corrct/physics/__init__.py
+++ b/src/corrct/physics/__init__.py
@@ -58,7 +58,7 @@ def pencil_beam_profile(
     xc = np.linspace(-extent_um / 2, extent_um / 2, num_points)
 
     # Box beam shape
-    yb = np.abs(xc) < half_voxel_size_um
+    yb = (np.abs(xc) < half_voxel_size_um).astype(float)
     yb[np.abs(np.abs(xc) - half_voxel_size_um) <= eps] = 0.5
 
     # Gaussian beam shape
@@ -81,8 +81,8 @@ def pencil_beam_profile(
     for ii_p in range(y_points):
         # Finding the region that overlaps with the given adjacent voxel
         voxel_center_um = (ii_p - profile_size) * voxel_size_um
-        yp = np.abs(xc - voxel_center_um) < half_voxel_size_um
-        yp[(np.abs(xc - voxel_center_um) - half_voxel_size_um) < eps] = 0.5
+        yp = (np.abs(xc - voxel_center_um) < half_voxel_size_um).astype(float)
+        yp[np.abs(np.abs(xc - voxel_center_um) - half_voxel_size_um) <= eps] = 0.5
 
         y[ii_p] = np.sum(yc * yp)
 
-- 
2.43.0


From 99d68391209e80e76126919cc5a2ce6f14a3bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 073/136] fix: pencil beam profiles of voxels smaller than a
 micron are sampled by at least 10 points

---
 src/corrct/physics/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/physics/__init__.py b/src/corrct/physics/__init__.py
index 84798b5..91c5330 100644
--- a/src/corrct/physics/__init__.py
+++ b/src/corrct/physics/__init__.py
@@ -50,7 +50,8 @@ def pencil_beam_profile(
     """
     y_points = profile_size * 2 + 1
     extent_um = y_points * voxel_size_um
-    num_points = int(np.ceil(extent_um * 10) // 2) * 2 + 1
+    # At least 10 points per micron, and per voxel
+    num_points = int(np.ceil(max(extent_um, y_points) * 10) // 2) * 2 + 1
     half_voxel_size_um = voxel_size_um / 2
 
     eps = np.finfo(np.float32).eps
-- 
2.43.0


From ce7d032ba6704537b474dae4225a5db41c61b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 074/136] fix: direct-space responses of propagation filters
 with odd lengths

---
 src/corrct/physics/phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/physics/phase.py b/src/corrct/physics/phase.py
index 5a3ae8f..da029f7 100644
--- a/src/corrct/physics/phase.py
+++ b/src/corrct/physics/phase.py
@@ -125,8 +125,8 @@ def plot_filter_responses(
     if domain.lower() == "fourier":
         step = k
     elif domain.lower() == "direct":
-        tie_resp = np.fft.fftshift(np.fft.irfft(tie_resp))
-        ctf_resp = np.fft.fftshift(np.fft.irfft(ctf_resp))
+        tie_resp = np.fft.fftshift(np.fft.irfft(tie_resp, n=filter_length))
+        ctf_resp = np.fft.fftshift(np.fft.irfft(ctf_resp, n=filter_length))
         p = np.fft.fftfreq(filter_length, d=1.0 / (pix_size_um * filter_length))
         p = np.fft.fftshift(p)
         step = p
-- 
2.43.0


From 3b9b2eea5a0c85bc220cfafce995c85b070b3124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 075/136] fix: setting the real-space representation of a
 filter is the inverse of getting it

---
 src/corrct/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/filters.py b/src/corrct/filters.py
index 3973c7c..20c5e8b 100644
--- a/src/corrct/filters.py
+++ b/src/corrct/filters.py
@@ -333,7 +333,7 @@ class Filter(ABC):
 
     @filter_real.setter
     def filter_real(self, fbp_filter_r: NDArray[np.floating]) -> None:
-        self.fbp_filter = self.to_fourier(fbp_filter_r)
+        self.fbp_filter = self.to_fourier(np.fft.ifftshift(fbp_filter_r, axes=(-1,)))
 
     @filter_fourier.setter
     def filter_fourier(self, fbp_filter_f: NDArray[np.floating]) -> None:
-- 
2.43.0


From 6ccaa41c4534e8206fa6babe51afa97663da1914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 076/136] fix: data-driven filters adapt their basis to data of
 other sizes

---
 src/corrct/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/filters.py b/src/corrct/filters.py
index 20c5e8b..8b72092 100644
--- a/src/corrct/filters.py
+++ b/src/corrct/filters.py
@@ -611,7 +611,7 @@ class FilterMR(Filter):
         projector : ProjectorOperator
             The projector used in the FBP.
         """
-        if not self.is_initialized:
+        if not self.is_initialized or self.basis_r.shape[-1] != self.get_padding_size(data_wu.shape):
             self.initialize(data_wu.shape)
 
         num_sino_pixels = data_wu.shape[-1]
-- 
2.43.0


From 6bdd799b86b12f3869ae1f5698af7a6f302dbf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 077/136] fix: FBP applies the data mask

---
 src/corrct/solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index fb8bb11..f9e4340 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -453,6 +453,9 @@ class FBP(Solver):
             local_filter = self.fbp_filter
         local_filter.pad_mode = self.pad_mode
 
+        if b_mask is not None:
+            b = b * b_mask
+
         if isinstance(A, operators.ProjectorOperator):
             pre_weights = A.get_pre_weights()
             if pre_weights is not None:
-- 
2.43.0


From 65e6b3e9d63092cf9374263164d6251b78f6e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:34 +0000
Subject: [PATCH 078/136] fix: dual step sizes of decimated wavelet
 regularizers are the inverse of the band gains

---
 src/corrct/regularizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 8c70cff..a88ae43 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -924,13 +924,13 @@ class Regularizer_dwl(BaseRegularizer):
         # self.dec_func_mult = 2 ** np.arange(self.level, 0, -1)
         # self.rec_func_mult = self.dec_func_mult
 
-        tmp_sigma = [np.ones(self.op.sub_band_shapes[0], self.dtype) * self.dec_func_mult[0]]
-        count = 0
+        tmp_sigma = [np.ones(self.op.sub_band_shapes[0], self.dtype) / self.dec_func_mult[0]]
+        count = 1
         for ii_l in range(self.level):
             d = {}
             for label in self.op.sub_band_shapes[ii_l + 1].keys():
                 # d[label] = np.ones(self.op.sub_band_shapes[ii_l + 1][label], self.dtype) * self.dec_func_mult[ii_l]
-                d[label] = np.ones(self.op.sub_band_shapes[ii_l + 1][label], self.dtype) * self.dec_func_mult[count]
+                d[label] = np.ones(self.op.sub_band_shapes[ii_l + 1][label], self.dtype) / self.dec_func_mult[count]
                 count += 1
             tmp_sigma.append(d)
         self.sigma, _ = pywt.coeffs_to_array(tmp_sigma, axes=self.axes)
-- 
2.43.0


From fafa78f29333b9b0d60b32c508f0c738fe725d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 079/136] fix: ASTRA projection geometries are in the units of
 the volume extent

The extent of the volume already accounts for the voxel size: dividing the
vectors by it as well enlarged the detector with respect to the volume (and
disagreed with the direct backend).
---
 src/corrct/_projector_backends.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 42cfbbf..31571d3 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -471,8 +471,6 @@ class ProjectorBackendASTRA(ProjectorBackend):
 
             geom_type_str = prj_geom.geom_type[:-2]
 
-        vectors /= vol_geom.vox_size
-
         if self.has_individual_projs:
             self.proj_geom_ind = [
                 astra.create_proj_geom(geom_type_str + "_vec", *prj_geom.det_shape_vu, vectors[ii : ii + 1 :, :])
-- 
2.43.0


From 5842688909a166e8256ef14c85ef5655cff22818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 080/136] fix: ASTRA projectors leave the given projection
 geometry untouched

The detector shape of the first volume was stored in the passed geometry, and
wrongly used for volumes of other sizes.
---
 src/corrct/_projector_backends.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 31571d3..c7ff7ba 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -7,6 +7,7 @@ and ESRF - The European Synchrotron, Grenoble, France
 
 from abc import ABC, abstractmethod
 from collections.abc import Mapping, Sequence
+from dataclasses import replace as dc_replace
 
 import numpy as np
 import skimage
@@ -428,6 +429,7 @@ class ProjectorBackendASTRA(ProjectorBackend):
                 prj_geom = ProjectionGeometry.get_default_parallel(geom_type="3d", rot_axis_shift_pix=rot_axis_shift_pix)
 
             if prj_geom.det_shape_vu is None:
+                prj_geom = dc_replace(prj_geom)  # Not modifying the given geometry
                 prj_geom.det_shape_vu = np.array(self.prj_shape_vwu[list([-3, -1])], dtype=int)
             else:
                 # Here the projections are supposed to be larger or smaller than the sample size
@@ -453,6 +455,7 @@ class ProjectorBackendASTRA(ProjectorBackend):
                 prj_geom = ProjectionGeometry.get_default_parallel(geom_type="2d", rot_axis_shift_pix=rot_axis_shift_pix)
 
             if prj_geom.det_shape_vu is None:
+                prj_geom = dc_replace(prj_geom)  # Not modifying the given geometry
                 prj_geom.det_shape_vu = np.array(self.prj_shape_vwu[list([-1])], dtype=int)
             else:
                 # Here the projections are supposed to be larger or smaller than the sample size
-- 
2.43.0


From b6d4f69d7d737313682a6e35318bf1c18f56f74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 081/136] fix: ASTRA back-projection of single projections of
 3D geometries

The check of the shape indexed single (V, U) projections as if they had an
axis for the angles, and raised an IndexError.
---
 src/corrct/_projector_backends.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index c7ff7ba..810ca51 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -543,10 +543,13 @@ class ProjectorBackendASTRA(ProjectorBackend):
             raise
 
     def _check_prj_shape(self, prj: NDArray) -> None:
-        inds_vu = [ind for ind in range(-len(self.prj_shape_vu), 0) if self.prj_shape_vu[ind] > 1]
-        expected_prj_shape_vu = self.prj_shape_vu[inds_vu]
-        given_prj_shape_vu = np.array(prj.shape)[inds_vu]
-        if np.any(given_prj_shape_vu != expected_prj_shape_vu):
+        expected_prj_shape_vu = np.delete(self.prj_shape_vu, -2)
+        given_prj_shape_vu = np.array(prj.shape, dtype=int)
+        if prj.ndim >= len(self.prj_shape_vu):
+            # Not a single projection: removing the angles
+            given_prj_shape_vu = np.delete(given_prj_shape_vu, -2)
+        num_dims_vu = 2 if expected_prj_shape_vu[0] > 1 else 1
+        if not np.array_equal(given_prj_shape_vu[-num_dims_vu:], expected_prj_shape_vu[-num_dims_vu:]):
             raise ValueError(
                 f"Expected prj shape (VU: {expected_prj_shape_vu} - likely inferred from `vol_geom`),"
                 f" and passed prj shape (VU: {given_prj_shape_vu}) from the projection data, do not match.\n"
-- 
2.43.0


From 7185cbdcba62e443c3f9b128c38795814f91eeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 082/136] fix: ASTRA forward-projections have the declared
 shape with single angles or rows

---
 src/corrct/_projector_backends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 810ca51..0c00d52 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -615,7 +615,7 @@ class ProjectorBackendASTRA(ProjectorBackend):
         finally:
             self.data_mod.delete([vid])
 
-        return np.squeeze(prj)
+        return prj if angle_ind is None else np.squeeze(prj, axis=-2)
 
     def bp(self, prj: NDArray, angle_ind: int | None = None) -> NDArray:
         """Apply back-projection of a single sinogram line to the volume.
-- 
2.43.0


From 811fadf19e4a755d76a4b677042fb734440690f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 083/136] fix: single projections of 2D geometries with the
 direct ASTRA backend are lines

---
 src/corrct/_projector_backends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 0c00d52..80632c5 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -811,7 +811,7 @@ class ProjectorBackendDirectASTRA(ProjectorBackendASTRA):
                 raise ValueError("Individual projectors not available!")
             prj = np.zeros(self.astra_angle_prj_shape, dtype=np.float32)
             proj_id = self.proj_id[angle_ind]
-            out_shape = self.angle_prj_shape
+            out_shape = np.delete(self.prj_shape_vu, -2)
 
         vol = self._check_data(vol, self.astra_vol_shape)
         astra.experimental.direct_FP3D(proj_id, vol, prj)
-- 
2.43.0


From 358d8d71cb3e5924ea57fbd2fafae51d9fdf543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 084/136] fix: camera tilt is the slope of the centers of
 rotation

The shifts were already halved when computing the centers of rotation of each
line: halving the slope again returned half of the tilt.
---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index af543a6..cc4c7ba 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -390,7 +390,7 @@ def fit_camera_tilt_angle(img_1: NDArray, img_2: NDArray, pad_u: bool = False, f
         coeffs_opt = minimize(f, np.array([b, a]))
         b, a = coeffs_opt.x
 
-    tilt_deg = np.rad2deg(-a / 2)
+    tilt_deg = np.rad2deg(-a)
     cor_offset_pix = b
 
     if verbose:
-- 
2.43.0


From 0f5ae7a69942be8148d4da492b89c8f87f0f7f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 085/136] fix: tracked marker positions in images of odd sizes

Centered markers are centered on the pixel at half of the size, rounded down.
---
 src/corrct/alignment/markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/markers.py b/src/corrct/alignment/markers.py
index 43de374..f80c14e 100644
--- a/src/corrct/alignment/markers.py
+++ b/src/corrct/alignment/markers.py
@@ -52,7 +52,7 @@ def track_marker(prj_data: NDArray, marker_vu: NDArray, stack_axis: int = -2) ->
     """
     marker_v1u = np.expand_dims(marker_vu, stack_axis).astype(np.float32)
     marker_pos = fitting.fit_shifts_vu_xc(prj_data, marker_v1u, stack_axis=stack_axis, normalize_fourier=False)
-    return marker_pos + np.array(marker_vu.shape)[:, None] / 2
+    return marker_pos + np.array(marker_vu.shape)[:, None] // 2
 
 
 def create_marker_disk(
-- 
2.43.0


From 6629747f04366e6731e1f9a8b014e752bd844f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 086/136] fix: simulated sinograms without attenuation apply
 the PSF

---
 src/corrct/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/testing.py b/src/corrct/testing.py
index 100ce15..6128e6f 100644
--- a/src/corrct/testing.py
+++ b/src/corrct/testing.py
@@ -386,7 +386,7 @@ def create_sino(
     detector_solidangle_sr = (2.4 / 2 / 16 / 2) ** 2
 
     if vol_att_in is None and vol_att_out is None:
-        with projectors.ProjectorUncorrected(ph.shape, angles_rad) as p:
+        with projectors.ProjectorUncorrected(ph.shape, angles_rad, psf=psf) as p:
             sino = p.fp(ph)
     else:
         with projectors.ProjectorAttenuationXRF(
-- 
2.43.0


From 0c5fe97498160f31f4ac3c2d5b1de4e10976a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 087/136] fix: Compton yield of detectors along the beam
 direction

---
 src/corrct/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/testing.py b/src/corrct/testing.py
index 6128e6f..f0314fd 100644
--- a/src/corrct/testing.py
+++ b/src/corrct/testing.py
@@ -256,7 +256,7 @@ def phantom_assign_concentration_multi(
         out_energy_keV, vol_yield[ii] = phantom.get_fluo_production(el, in_energy_keV, line)
         vol_lin_att_out[ii] = phantom.get_attenuation(out_energy_keV)
 
-    if detectors_pos_rad:
+    if detectors_pos_rad is not None:
         out_energy_keV, vol_yield[-1] = phantom.get_compton_scattering(in_energy_keV, angle_rad=detectors_pos_rad)
         vol_lin_att_out[-1] = phantom.get_attenuation(out_energy_keV)
 
-- 
2.43.0


From 6c558589962217e820622a9582a992e30601bf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 088/136] fix: phantom voxels with values at the limits between
 phases have a material

They belonged to no phase, not even air.
---
 src/corrct/testing.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/corrct/testing.py b/src/corrct/testing.py
index f0314fd..ac93fad 100644
--- a/src/corrct/testing.py
+++ b/src/corrct/testing.py
@@ -167,9 +167,9 @@ def phantom_assign_concentration(
         Voxel-wise attenuation at the emitted energy.
     """
     ph_air = ph_or < 0.1
-    ph_FeO = 0.5 < ph_or
-    ph_CaO = np.logical_and(0.25 < ph_or, ph_or < 0.5)
-    ph_CaC = np.logical_and(0.1 < ph_or, ph_or < 0.25)
+    ph_FeO = 0.5 <= ph_or
+    ph_CaO = np.logical_and(0.25 <= ph_or, ph_or < 0.5)
+    ph_CaC = np.logical_and(0.1 <= ph_or, ph_or < 0.25)
 
     conv_mm_to_cm = 1e-1
     conv_um_to_mm = 1e-3
@@ -227,9 +227,9 @@ def phantom_assign_concentration_multi(
         Voxel-wise attenuation at the emitted energy.
     """
     ph_air = ph_or < 0.1
-    ph_FeO = 0.5 < ph_or
-    ph_CaO = np.logical_and(0.25 < ph_or, ph_or < 0.5)
-    ph_CaC = np.logical_and(0.1 < ph_or, ph_or < 0.25)
+    ph_FeO = 0.5 <= ph_or
+    ph_CaO = np.logical_and(0.25 <= ph_or, ph_or < 0.5)
+    ph_CaC = np.logical_and(0.1 <= ph_or, ph_or < 0.25)
 
     conv_mm_to_cm = 1e-1
     conv_um_to_mm = 1e-3
-- 
2.43.0


From 5ff59245c9e08def74e92739283b6570c7cc71e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 089/136] fix: data terms with a background of one element in
 an array have an info string

---
 src/corrct/data_terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index d80181d..87b10f0 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -87,10 +87,10 @@ class DataFidelityBase(ABC):
             Data fidelity info string.
         """
         if self.background is not None:
-            if np.array(self.background).size > 1:
+            if np.size(self.background) > 1:
                 bckgrnd_str = "(B:<array>)"
             else:
-                bckgrnd_str = "(B:%g)" % self.background
+                bckgrnd_str = "(B:%g)" % np.squeeze(self.background)
         else:
             bckgrnd_str = ""
         return self.__data_fidelity_name__ + bckgrnd_str
-- 
2.43.0


From 18a516908db7a549045691f0fb9d254b9af6c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:25 +0000
Subject: [PATCH 090/136] fix: l12 decimated wavelets over a subset of the axes

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index a88ae43..6bc44a0 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -981,7 +981,7 @@ class Regularizer_dwl(BaseRegularizer):
                     c_l[lab] = c_ll[ii]
                 coeffs[ii_l] = c_l
             self.norm.apply_proximal_dual(coeffs[0], self.weight)
-            dual[:] = pywt.coeffs_to_array(coeffs)[0]
+            dual[:] = pywt.coeffs_to_array(coeffs, axes=self.axes)[0]
         else:
             super().apply_proximal_dual(dual)
 
-- 
2.43.0


From 26c9a8f25961b707f4dc1e12bbf8fa5f21472029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:25 +0000
Subject: [PATCH 091/136] fix: l12 decimated wavelets treat each approximation
 coefficient by itself

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 6bc44a0..d3dbca8 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -980,7 +980,7 @@ class Regularizer_dwl(BaseRegularizer):
                 for ii, lab in enumerate(labels):
                     c_l[lab] = c_ll[ii]
                 coeffs[ii_l] = c_l
-            self.norm.apply_proximal_dual(coeffs[0], self.weight)
+            self.norm.apply_proximal_dual(coeffs[0][None, ...], self.weight)
             dual[:] = pywt.coeffs_to_array(coeffs, axes=self.axes)[0]
         else:
             super().apply_proximal_dual(dual)
-- 
2.43.0


From eaf3c593141741f65cadfee045e7d4fb1260eee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:11 +0000
Subject: [PATCH 092/136] fix: cross-validation of solvers with one background
 value per pixel

---
 src/corrct/solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index f9e4340..906ef54 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -763,7 +763,7 @@ class MLEM(Solver):
             Ax = A(x)
 
             if b_test_mask is not None:
-                if self.data_term_test.background != self.data_term.background:
+                if not np.array_equal(self.data_term_test.background, self.data_term.background):
                     print("WARNING - the data_term and and data_term_test should have the same background. Making them equal.")
                     self.data_term_test.background = self.data_term.background
                 self.data_term_test.assign_data(b)
@@ -944,7 +944,7 @@ class SIRT(Solver):
             info.residual0 = self.data_term.compute_residual_norm(res_0)
 
             if b_test_mask is not None:
-                if self.data_term_test.background != self.data_term.background:
+                if not np.array_equal(self.data_term_test.background, self.data_term.background):
                     print("WARNING - the data_term and and data_term_test should have the same background. Making them equal.")
                     self.data_term_test.background = self.data_term.background
                 self.data_term_test.assign_data(b, sigma)
@@ -1158,7 +1158,7 @@ class PDHG(Solver):
             info.residual0 = self.data_term.compute_residual_norm(res_0)
 
             if b_test_mask is not None:
-                if self.data_term_test.background != self.data_term.background:
+                if not np.array_equal(self.data_term_test.background, self.data_term.background):
                     print("WARNING - the data_term and and data_term_test should have the same background. Making them equal.")
                     self.data_term_test.background = self.data_term.background
                 self.data_term_test.assign_data(b, sigma)
@@ -1438,7 +1438,7 @@ class FISTA(Solver):
         # gradient step here; the gradient is computed analytically from compute_residual).
         self.data_term.assign_data(b)
         if b_test_mask is not None:
-            if self.data_term_test.background != self.data_term.background:
+            if not np.array_equal(self.data_term_test.background, self.data_term.background):
                 print("WARNING - the data_term and data_term_test should have the same background. Making them equal.")
                 self.data_term_test.background = self.data_term.background
             self.data_term_test.assign_data(b)
-- 
2.43.0


From 49f1892967307ced7b2626660dfccf4f73bf3b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:11 +0000
Subject: [PATCH 093/136] fix: MLEM with backgrounds in arrays has a name in
 the solution info

---
 src/corrct/solvers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 906ef54..d3ce193 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -686,7 +686,12 @@ class MLEM(Solver):
         str
             info string.
         """
-        return Solver.info(self) + (f"(B:{self.data_term.background:g})" if self.data_term.background is not None else "")
+        if self.data_term.background is None:
+            return Solver.info(self)
+        elif np.size(self.data_term.background) > 1:
+            return Solver.info(self) + "(B:<array>)"
+        else:
+            return Solver.info(self) + f"(B:{np.squeeze(self.data_term.background):g})"
 
     def __call__(  # noqa: C901
         self,
-- 
2.43.0


From 2cc8cb974127b3b7c00481c7357d4a03e2bfe165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 094/136] fix: rotation and scale fits of images with odd
 sizes, by using the centre of their Fourier transform

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index cc4c7ba..4ae924e 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -325,7 +325,7 @@ def fit_image_rotation_and_scale(
     img_fft_2 = np.abs(np.fft.fftshift(img_fft_2, axes=axes))
 
     # transform to polar coordinates
-    img_center = [s - s // 2 for s in img_shape]
+    img_center = [s // 2 for s in img_shape]
     radius = min([s // 2 for s in img_shape])
     img_fft_1_p = warp_polar(img_fft_1, center=img_center, scaling="log", radius=radius)
     img_fft_2_p = warp_polar(img_fft_2, center=img_center, scaling="log", radius=radius)
-- 
2.43.0


From 9a123b1893d5e8ac0a725b207cdfc308b0a9485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 095/136] fix: margins of images stacked along any axis, in the
 shift fits

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 4ae924e..682fe09 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -144,7 +144,7 @@ def fit_shifts_vu_xc(
         mask = np.zeros([proj_vwu.shape[d] for d in fft_dims], dtype=proj_vwu.dtype)
         slices = [slice(margin, proj_vwu.shape[d] - margin) for d in fft_dims]
         mask[tuple(slices)] = 1.0
-        proj_vwu = proj_vwu * mask[..., None, :]
+        proj_vwu = proj_vwu * np.expand_dims(mask, stack_axis)
 
     if len(fft_dims) == 2:
         shifts_vu = np.empty((len(data_vwu.shape) - 1, num_angles))
-- 
2.43.0


From 2d0b74f70c40a5d4d3b4bda63f9ee6ac7ca91894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:33 +0000
Subject: [PATCH 096/136] fix: template matching of images with flat regions
 does not divide by zero

---
 src/corrct/processing/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index df78cec..0feb9ab 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -425,7 +425,9 @@ def norm_cross_corr(
         cc_n /= np.std(img1) * np.sqrt(np.prod(np.array(img1.shape)[list(axes)]))
 
         diff_local_sums = local_sums_img2_2 - (local_sums_img2**2) / np.prod(np.array(img2.shape)[list(axes)])
-        cc_n /= np.sqrt(diff_local_sums.clip(0, None))
+        # Flat regions have no variance: they do not correlate with any template
+        is_flat = diff_local_sums <= np.finfo(np.float32).eps * np.max(local_sums_img2_2)
+        cc_n = np.where(is_flat, 0, cc_n / np.sqrt(np.where(is_flat, 1, diff_local_sums)))
     else:
         cc_n = cc / (np.linalg.norm(img1) * np.linalg.norm(img2))
 
-- 
2.43.0


From 9b0b4005575910995a347f37c94f5e1d4514a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:33 +0000
Subject: [PATCH 097/136] fix: resolution estimates with thresholds computed
 per image

---
 src/corrct/processing/post.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/processing/post.py b/src/corrct/processing/post.py
index 3d9166f..3e575a4 100644
--- a/src/corrct/processing/post.py
+++ b/src/corrct/processing/post.py
@@ -269,10 +269,10 @@ def estimate_resolution(frc: NDArray, t_hb: NDArray) -> tuple[float, float] | No
     tuple[float, float] | None
         The resolution or bandwidth, if a crossing point was found. Otherwise None.
     """
+    if frc.ndim > 1:
+        frc = frc.mean(axis=tuple(np.arange(frc.ndim - 1)))
     if t_hb.ndim > 1:
-        reduce_axes = tuple(np.arange(t_hb.ndim - 1))
-        frc = frc.mean(axis=reduce_axes)
-        t_hb = t_hb.mean(axis=reduce_axes)
+        t_hb = t_hb.mean(axis=tuple(np.arange(t_hb.ndim - 1)))
     return lines_intersection(frc, t_hb, x_lims=(1, None))
 
 
-- 
2.43.0


From b27b42a66ea7f9bf556c2c08feac14e4afbe97c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:18 +0000
Subject: [PATCH 098/136] fix: fractional binning keeps the scale of integer
 images, and only bins the chosen axes

---
 src/corrct/processing/pre.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index c4079cd..57170b1 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -222,10 +222,10 @@ def bin_imgs(
         imgs = block_reduce(imgs, tuple(binning_shape), np.mean)
         binned_shape = imgs.shape
     else:
-        imgs = imgs.reshape([-1, *imgs_shape[-2:]])
-        imgs = skt.rescale(imgs, 1 / binning, channel_axis=0 if len(imgs_shape) > 2 else None)
-        binned_shape = [*imgs_shape[:-2], *imgs.shape[-2:]]
-        imgs = imgs.reshape(binned_shape)
+        scale = np.ones(len(imgs_shape))
+        scale[list(axes)] = 1 / binning
+        imgs = skt.rescale(imgs, tuple(scale), preserve_range=True)
+        binned_shape = imgs.shape
 
     if verbose:
         print(f"Binning {binning}: {imgs_shape} => {binned_shape}")
-- 
2.43.0


From 02e758bd2d86033ae607c5d2686d61b5fcb8f2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:12 +0000
Subject: [PATCH 099/136] fix: template matching of non-square images and of
 stacks

---
 src/corrct/processing/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 0feb9ab..b3ce3fa 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -381,7 +381,7 @@ def norm_cross_corr(
         padding = np.zeros(len(x.shape), dtype=int)
         for a in axes:
             padding[a] = x.shape[a]
-        y: NDArray[np.floating] = np.pad(x, padding)
+        y: NDArray[np.floating] = np.pad(x, [(p, p) for p in padding])
         for a in axes:
             y = np.cumsum(y, axis=a)
             slicing1 = [slice(None)] * len(x.shape)
-- 
2.43.0


From fd01651fb6d8b07deffb2bb09cb99b2a4e58b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 100/136] fix: eigen flats average the darks of one-dimensional
 images too

---
 src/corrct/processing/pre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index 57170b1..a54d301 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -491,8 +491,8 @@ def compute_eigen_flats(
     stack_imgs = np.concatenate(stack_imgs)
 
     if darks_wvu is not None:
-        if darks_wvu.ndim > 2:
-            darks_wvu = darks_wvu.mean(axis=tuple(np.arange(darks_wvu.ndim - 2)))
+        if darks_wvu.ndim > ndim:
+            darks_wvu = darks_wvu.mean(axis=tuple(np.arange(darks_wvu.ndim - ndim)))
         stack_imgs = np.fmax(stack_imgs - darks_wvu, np.finfo(np.float32).eps)
 
     stack_imgs = stack_imgs.reshape([-1, np.prod(img_shape)]).transpose()
-- 
2.43.0


From 5162a8919661ccb9a6da63c9b2d94ecf2f1922ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:40 +0000
Subject: [PATCH 101/136] fix: template matching of stacks uses the mean and
 deviation of each template

---
 src/corrct/processing/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index b3ce3fa..7edb3b3 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -420,9 +420,9 @@ def norm_cross_corr(
             local_sums_img2 = local_sums_img2[slices]
             local_sums_img2_2 = local_sums_img2_2[slices]
 
-        cc_n = cc - local_sums_img2 * np.mean(img1)
+        cc_n = cc - local_sums_img2 * np.mean(img1, axis=tuple(axes), keepdims=True)
 
-        cc_n /= np.std(img1) * np.sqrt(np.prod(np.array(img1.shape)[list(axes)]))
+        cc_n /= np.std(img1, axis=tuple(axes), keepdims=True) * np.sqrt(np.prod(np.array(img1.shape)[list(axes)]))
 
         diff_local_sums = local_sums_img2_2 - (local_sums_img2**2) / np.prod(np.array(img2.shape)[list(axes)])
         # Flat regions have no variance: they do not correlate with any template
-- 
2.43.0


From f13d8565c66e089aaebed28636dde6905bbfaca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:37 +0000
Subject: [PATCH 102/136] fix: Fourier regularizers over axes counted from the
 first one

---
 src/corrct/regularizers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index d3dbca8..d39b9c5 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1235,7 +1235,9 @@ class Regularizer_fft(BaseRegularizer):
         self.op = operators.TransformFourier(primal.shape, axes=self.axes)
 
         if isinstance(self.fft_filter, str):
-            coords = [np.fft.fftfreq(s) for s in self.op.adj_shape[self.axes]]
+            # The Fourier representation has one dimension more, in front of the others
+            axes = np.array([ax - primal.ndim if ax >= 0 else ax for ax in self.axes])
+            coords = [np.fft.fftfreq(s) for s in self.op.adj_shape[axes]]
             coords = np.array(np.meshgrid(*coords, indexing="ij"))
 
             if self.fft_filter.lower() == "delta":
@@ -1248,7 +1250,7 @@ class Regularizer_fft(BaseRegularizer):
                 raise ValueError('Unknown FFT mask: %s. Options are: "delta", "exp". and "exp2".' % self.fft_filter)
 
             new_shape = np.ones_like(self.op.adj_shape)
-            new_shape[self.axes] = self.op.adj_shape[self.axes]
+            new_shape[axes] = self.op.adj_shape[axes]
             self.sigma = np.reshape(self.sigma, new_shape)
         else:
             self.sigma = 1
-- 
2.43.0


From c39087026ccb5600c722f37988e6d0233e344c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:27 +0000
Subject: [PATCH 103/136] fix: weight in the step of the identity regularizer
 with an l2 norm

---
 src/corrct/regularizers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index d39b9c5..4df5dc7 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -548,7 +548,10 @@ class Regularizer_l1(BaseRegularizer):
 
         self.norm.assign_data(None, sigma=1)
 
-        tau = 1.0
+        if not isinstance(self.norm, dt.DataFidelity_l1):
+            tau = self.weight
+        else:
+            tau = 1.0
         if self.upd_mask is not None:
             tau = tau * self.upd_mask
         return tau
-- 
2.43.0


From 63f317c7a11f92d24cfb36b72df8aef652a61ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 104/136] fix: FBP reconstructions of ghost tomography

---
 src/corrct/struct_illum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 9429383..1cb4f6f 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -1001,7 +1001,7 @@ class ProjectorGhostImaging(ProjectorOperator):
         """
         # return self.bp(bucket_vals - np.mean(bucket_vals)) + np.mean(bucket_vals) * np.mean(self.col_sum)
         if np.any(self.mc.masks_enc != self.mc.masks_dec) and not use_lstsq:
-            img = self.bp(bucket_vals)
+            img = ProjectorGhostImaging.bp(self, bucket_vals)
         else:
             masks = self.mc.masks_enc.reshape([-1, np.prod(self.mc.shape_fov)])
             result = spalg.lstsq(masks, bucket_vals)
@@ -1101,7 +1101,8 @@ class ProjectorGhostTomography(ProjectorGhostImaging):
         NDArray
             The reconstructed image.
         """
-        imgs_wvu = [super().fbp(bs, use_lstsq, adjust_scaling) for bs in bucket_vals]
+        imgs_wvu = [ProjectorGhostImaging.fbp(self, bs, use_lstsq, adjust_scaling) for bs in bucket_vals]
         imgs_vwu = np.moveaxis(np.array(imgs_wvu), 0, -2)
         solver_fbp = FBP()
-        return solver_fbp(self.tomo_proj, imgs_vwu)
+        rec, _ = solver_fbp(self.tomo_proj, imgs_vwu)
+        return rec
-- 
2.43.0


From 5c5a0f6d5420749883d91dacdae71e87c071cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:27 +0000
Subject: [PATCH 105/136] fix: error raised for unsupported derivative and
 level norms of vector regularizers

---
 src/corrct/regularizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 4df5dc7..e296353 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1376,10 +1376,10 @@ class Regularizer_VTV(Regularizer_Grad):
         super().__init__(weight=weight, ndims=ndims, upd_mask=upd_mask)
 
         self.pwise_der_norm = pwise_der_norm
+        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_der_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
-        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_chan_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
@@ -1522,10 +1522,10 @@ class Regularizer_vl1wl(Regularizer_l1swl):
         )
 
         self.pwise_lvl_norm = pwise_lvl_norm
+        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_lvl_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
-        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_chan_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
-- 
2.43.0


From 6dfdf5980f291d77925f530376c4f4a40e3a1955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:12 +0000
Subject: [PATCH 106/136] fix: collapsing detectors with 3D attenuation maps or
 angle-dependent weights

---
 src/corrct/projectors.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index 88cd0ca..bd919c1 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -491,12 +491,17 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
 
     def collapse_detectors(self) -> None:
         """Convert multi-detector configurations into single-detector."""
-        weights = np.reshape(self.weights_det, [1, -1, 1, 1]) / np.sum(self.weights_det)
+        weights_norm = self.weights_det / np.sum(self.weights_det)
+        weights = weights_norm * self.weights_angles
+        weights_angles = np.sum(weights, axis=1, keepdims=True)
+
+        # The weights of the detectors can change with the angle, and the maps can be 2D or 3D
+        weights = weights / (weights_angles + (weights_angles == 0))
+        weights = np.reshape(weights, [*weights.shape, *[1] * (self.att_vol_angles.ndim - 2)])
         self.att_vol_angles = np.sum(self.att_vol_angles * weights, axis=1, keepdims=True)
 
-        weights = np.squeeze(weights)
-        self.angles_det_rad = np.sum(self.angles_det_rad * weights, keepdims=True)
-        self.weights_angles = np.sum(self.weights_angles * weights, axis=1, keepdims=True)
+        self.angles_det_rad = np.sum(self.angles_det_rad * weights_norm, keepdims=True)
+        self.weights_angles = weights_angles
         self.weights_det = np.sum(self.weights_det, keepdims=True)
 
     def fp_angle(self, vol: NDArray, angle_ind: int) -> NDArray:
-- 
2.43.0


From fccf140b3beae51b3dad7d7909ad2974098e323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 107/136] fix: data terms handle integer data as floating point
 values

The background was cast to the integer type of the data (losing its
fractional part), unsigned data wrapped around, and the dual variables were
initialized as integers.
---
 src/corrct/data_terms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 87b10f0..835a63a 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -128,6 +128,8 @@ class DataFidelityBase(ABC):
             The sigma, by default 1.0
         """
         self.data = np.array(data) if data is not None else None
+        if self.data is not None and not np.issubdtype(self.data.dtype, np.inexact):
+            self.data = self.data.astype(np.result_type(self.data.dtype, np.float32))
         self.sigma = sigma
         self.sigma_data = self._compute_sigma_data()
         if self.background is not None and self.data is not None:
-- 
2.43.0


From 5ecd480eeffcca1583789e0698179e5566b1f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:03 +0000
Subject: [PATCH 108/136] fix: solvers accept integer data and initial
 solutions

Sinograms and initial solutions of integer type made the in-place updates of
the solvers raise; they are now handled as floating point values.
---
 src/corrct/solvers.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index d3ce193..e8e7f6f 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -57,6 +57,25 @@ def power_method(A: operators.BaseTransform, b: NDArrayFloat, iterations: int =
     return float(L), x.shape, x.dtype
 
 
+def _as_floating(data: NDArray) -> NDArray:
+    """Copy the data to an array of floating point type, if it is of integer or boolean type.
+
+    Parameters
+    ----------
+    data : NDArray
+        The data to copy.
+
+    Returns
+    -------
+    NDArray
+        The copied data.
+    """
+    data = np.array(data)
+    if not np.issubdtype(data.dtype, np.inexact):
+        data = data.astype(np.result_type(data.dtype, np.float32))
+    return data
+
+
 def compute_diagonal_scaling(
     A_abs: operators.BaseTransform,
     At_abs: operators.BaseTransform,
@@ -573,6 +592,8 @@ class SART(Solver):
         elif A_num_rows is None:
             raise ValueError("Parameter `A_num_rows` is required, if `A` is not a projector.")
 
+        b = _as_floating(b)
+
         # Back-projection diagonal re-scaling
         b_ones = np.ones_like(b)
         if b_mask is not None:
@@ -594,7 +615,7 @@ class SART(Solver):
         if x0 is None:
             x0 = np.zeros_like(x_ones)
         else:
-            x0 = np.array(x0).copy()
+            x0 = _as_floating(x0)
         x = x0
 
         info = SolutionInfo(self.info(), max_iterations=iterations, tolerance=self.tolerance)
@@ -734,7 +755,7 @@ class MLEM(Solver):
         tuple[NDArrayFloat, SolutionInfo]
             The reconstruction, and the residuals.
         """
-        b = np.array(b)
+        b = _as_floating(b)
 
         b_mask, b_test_mask = self._initialize_b_masks(b, b_mask, b_test_mask)
 
@@ -756,7 +777,7 @@ class MLEM(Solver):
         if x0 is None:
             x = np.ones_like(tau)
         else:
-            x = np.array(x0).copy()
+            x = _as_floating(x0)
         if x_mask is not None:
             x *= x_mask
 
@@ -917,7 +938,7 @@ class SIRT(Solver):
         tuple[NDArrayFloat, SolutionInfo]
             The reconstruction, and the residuals.
         """
-        b = np.array(b)
+        b = _as_floating(b)
 
         b_mask, b_test_mask = self._initialize_b_masks(b, b_mask, b_test_mask)
 
@@ -936,7 +957,7 @@ class SIRT(Solver):
         if x0 is None:
             x = np.zeros_like(tau)
         else:
-            x = np.array(x0).copy()
+            x = _as_floating(x0)
 
         self.data_term.assign_data(b, sigma)
 
@@ -1113,7 +1134,7 @@ class PDHG(Solver):
         tuple[NDArrayFloat, SolutionInfo]
             The reconstruction, and the residuals.
         """
-        b = np.array(b)
+        b = _as_floating(b)
 
         if precondition:
             try:
@@ -1145,7 +1166,7 @@ class PDHG(Solver):
         if x0 is None:
             x0 = np.zeros(x_shape, dtype=x_dtype)
         else:
-            x0 = np.array(x0).copy()
+            x0 = _as_floating(x0)
         x = x0
         x_relax = x.copy()
 
@@ -1405,7 +1426,7 @@ class FISTA(Solver):
         tuple[NDArrayFloat, SolutionInfo]
             The reconstruction and associated iteration info.
         """
-        b = np.array(b)
+        b = _as_floating(b)
 
         if precondition:
             try:
-- 
2.43.0


From 553d17e1b4c7342438cc0139d8474f43a730f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:17 +0000
Subject: [PATCH 109/136] fix: rotating stacks of integer projections gave
 zeros

The images were rescaled by the range of their type, and the result stored as
integers.
---
 src/corrct/processing/pre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index a54d301..db83438 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -143,9 +143,9 @@ def rotate_proj_stack(data_vwu: NDArray, rot_angle_deg: float) -> NDArray:
     NDArray
         The rotated projection stack.
     """
-    data_vwu_r = np.empty_like(data_vwu)
+    data_vwu_r = np.empty_like(data_vwu, dtype=np.result_type(data_vwu.dtype, np.float32))
     for ii in range(data_vwu.shape[-2]):
-        data_vwu_r[:, ii, :] = skt.rotate(data_vwu[:, ii, :], -rot_angle_deg, clip=False)
+        data_vwu_r[:, ii, :] = skt.rotate(data_vwu[:, ii, :], -rot_angle_deg, clip=False, preserve_range=True)
     return data_vwu_r
 
 
-- 
2.43.0


From e52399f7659fee0aeba6a8795faf1339423ca584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:17 +0000
Subject: [PATCH 110/136] fix: shifting stacks of integer projections rounded
 their values

---
 src/corrct/processing/pre.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index db83438..34d68c5 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -166,6 +166,7 @@ def shift_proj_stack(data_vwu: NDArray, shifts: NDArray, use_fft: bool = False)
     NDArray
         The shifted stack
     """
+    data_vwu = data_vwu.astype(np.result_type(data_vwu.dtype, np.float32), copy=False)
     new_data = np.empty_like(data_vwu)
     for ii in range(data_vwu.shape[-2]):
         if use_fft:
-- 
2.43.0


From b8ca63a696543359f1d46447400e7a190bb2d17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:17 +0000
Subject: [PATCH 111/136] fix: polynomial background of integer projections was
 truncated

---
 src/corrct/processing/pre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index 34d68c5..c8e0d95 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -280,7 +280,7 @@ def background_from_margin(
         if data_vwu.ndim > 2:
             ydata = ydata.mean(axis=-3)
 
-        background = np.empty([data_shape_w, data_shape_u], dtype=data_vwu.dtype)
+        background = np.empty([data_shape_w, data_shape_u], dtype=np.result_type(data_vwu.dtype, np.float32))
         for ii_w in range(data_shape_w):
             poly = Polynomial.fit(xdata, ydata[ii_w], deg=poly_order)
             background[ii_w, :] = poly(np.arange(data_shape_u))
-- 
2.43.0


From bb7df283c9e8da7f6eecc65fe8b55f8d8894be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:17 +0000
Subject: [PATCH 112/136] fix: SNIP background of integer images

The kernel of snip could not be normalized for integer images, and
background_from_snip rounded the smoothed images.
---
 src/corrct/processing/pre.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index c8e0d95..e4f54d6 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -341,6 +341,8 @@ def snip(
     elif kernel_dims > img.ndim or kernel_dims < 1:
         raise ValueError(f"Kernel dimensions (#{kernel_dims}) should be between [1, {img.ndim}] (number of image dimensions)")
 
+    img = img.astype(np.result_type(img.dtype, np.float32), copy=False)
+
     kernel_shape = [1 if ii < -kernel_dims else window for ii in range(-img.ndim, 0)]
     kern = np.ones(kernel_shape, dtype=img.dtype)
     slices = [slice(None) if ii < -kernel_dims else slice(1, -1) for ii in range(-img.ndim, 0)]
@@ -374,6 +376,7 @@ def background_from_snip(
     NDArray
         The background-fitted dataset.
     """
+    data_vwu = data_vwu.astype(np.result_type(data_vwu.dtype, np.float32), copy=False)
     bg_data_vwu = np.empty_like(data_vwu)
     for ii_a in trange(data_vwu.shape[-2], desc="Angles"):
         img = data_vwu[..., ii_a, :]
-- 
2.43.0


From ae7d7c5c0fa98d7a611ff3756c09758419008a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:17 +0000
Subject: [PATCH 113/136] fix: subtracting the darks from unsigned flats
 wrapped around in compute_eigen_flats

---
 src/corrct/processing/pre.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index e4f54d6..a2eba25 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -497,6 +497,7 @@ def compute_eigen_flats(
     if darks_wvu is not None:
         if darks_wvu.ndim > ndim:
             darks_wvu = darks_wvu.mean(axis=tuple(np.arange(darks_wvu.ndim - ndim)))
+        stack_imgs = stack_imgs.astype(np.result_type(stack_imgs.dtype, np.float32), copy=False)
         stack_imgs = np.fmax(stack_imgs - darks_wvu, np.finfo(np.float32).eps)
 
     stack_imgs = stack_imgs.reshape([-1, np.prod(img_shape)]).transpose()
-- 
2.43.0


From 14c78e2579339e54658e95931bc1093b7493c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 114/136] fix: gradient and Laplacian of unsigned integer
 images wrapped around

---
 src/corrct/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index 5a01c3e..448c7ba 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -813,6 +813,7 @@ class TransformGradient(BaseTransform):
         NDArray
             Gradient of data.
         """
+        x = x.astype(np.result_type(x.dtype, np.float32), copy=False)
         d = [np.array([])] * len(self.axes)
         for ii, ax in enumerate(self.axes):
             padding = np.zeros((self.ndims, 2), dtype=int)
@@ -835,6 +836,7 @@ class TransformGradient(BaseTransform):
         NDArray
             Divergence of data.
         """
+        x = x.astype(np.result_type(x.dtype, np.float32), copy=False)
         d = [np.array([])] * len(self.axes)
         for ii, ax in enumerate(self.axes):
             padding = np.zeros((self.ndims, 2), dtype=int)
@@ -965,6 +967,7 @@ class TransformLaplacian(BaseTransform):
         NDArray
             Laplacian of the input data.
         """
+        x = x.astype(np.result_type(x.dtype, np.float32), copy=False)
         d = [np.array([])] * len(self.axes)
         for ii, ax in enumerate(self.axes):
             padding = np.zeros((self.ndims, 2), dtype=int)
-- 
2.43.0


From fe1566a040b8ec584609e578a0c1f402b803423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 115/136] fix: Fourier transform operator truncated the
 transform of integer images

---
 src/corrct/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index 448c7ba..601d5cb 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -896,7 +896,7 @@ class TransformFourier(BaseTransform):
         NDArray
             FFT of data.
         """
-        d = np.empty(self.adj_shape, dtype=x.dtype)
+        d = np.empty(self.adj_shape, dtype=np.result_type(x.dtype, np.float32))
         x_f = np.fft.fftn(x, axes=tuple(self.axes), norm="ortho")
         d[0, ...] = x_f.real
         d[1, ...] = x_f.imag
-- 
2.43.0


From 682016f79d2e816b64a3b302ec4743fec8f3a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 116/136] fix: scikit-image projections of integer volumes and
 sinograms gave zeros

scikit-image rescales the integer images by the range of their type, and the
results were then truncated to integers.
---
 src/corrct/_projector_backends.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 80632c5..e21fa16 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -324,6 +324,7 @@ class ProjectorBackendSKimage(ProjectorBackend):
         NDArray
             The forward-projected sinogram or sinogram line.
         """
+        vol = vol.astype(np.result_type(vol.dtype, np.float32), copy=False)
         if angle_ind is None:
             prj = np.empty(self.prj_shape_vwu, dtype=vol.dtype)
             for ii_a, a in enumerate(self.angles_w_deg):
@@ -349,6 +350,7 @@ class ProjectorBackendSKimage(ProjectorBackend):
         """
         filter_name = self._set_filter_name(None)
         bpj_size = self._set_bpj_size(self.vol_shape_zxy[-1])
+        prj = prj.astype(np.result_type(prj.dtype, np.float32), copy=False)
         if angle_ind is None:
             vol = np.empty([self.prj_shape_vwu[-2], *self.vol_shape_zxy], dtype=prj.dtype)
             for ii_a, a in enumerate(self.angles_w_deg):
-- 
2.43.0


From e8eeb0e1f244727d82f29ef5ff40a87cd707de1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 117/136] fix: attenuation volume of integer local attenuation
 maps

The maps were rescaled by the range of their type when rotating them, and the
accumulated attenuation of 3D maps was truncated to integers.
---
 src/corrct/_projector_backends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index e21fa16..2b443eb 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -81,7 +81,7 @@ def compute_attenuation(vol: NDArray, angle_rad: float, invert: bool = False) ->
 
     rot_angle_deg = np.rad2deg(angle_rad)
 
-    cum_arr = pad_vol(vol, edges)
+    cum_arr = pad_vol(vol.astype(np.result_type(vol.dtype, np.float32), copy=False), edges)
 
     if cum_arr.ndim > 2:
         prev_shape = np.array(cum_arr.shape, ndmin=1)
-- 
2.43.0


From da49197c86635f71c860b22b7481bb2ab68f6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 118/136] fix: intersection of lines of unsigned integers
 wrapped around

---
 src/corrct/processing/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 7edb3b3..5ba8bea 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -282,8 +282,8 @@ def lines_intersection(
         It returns either the requested crossing point, or None in case the
         point was not found.
     """
-    line_1 = np.array(np.squeeze(line_1), ndmin=1)
-    line_2 = np.array(np.squeeze(line_2), ndmin=1)
+    line_1 = np.array(np.squeeze(line_1), ndmin=1, dtype=float)
+    line_2 = np.array(np.squeeze(line_2), ndmin=1, dtype=float)
     # Find the transition points, by first finding where line_2 is above line_1
     crossing_points = np.where(line_2 > line_1, 0, 1)
     crossing_points = np.abs(np.diff(crossing_points))
-- 
2.43.0


From 6065bfdb71042557c6f119c0a0f75842c5f93344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 119/136] fix: FRC of integer images

Supersampling rounded the images, and a second image of floating point type
was truncated.
---
 src/corrct/processing/post.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/corrct/processing/post.py b/src/corrct/processing/post.py
index 3e575a4..7f7a428 100644
--- a/src/corrct/processing/post.py
+++ b/src/corrct/processing/post.py
@@ -191,6 +191,7 @@ def compute_frc(
             raise ValueError(
                 f"Image #1 size {img1_shape} and image #2 size {img2_shape} are different, while they should be equal."
             )
+    img1 = img1.astype(np.result_type(img1.dtype, np.float32), copy=False)
     if img1.dtype != img2.dtype:
         print(f"WARNING: The two images have different dtype: img1 {img1.dtype}, img2 {img2.dtype}. Forcing the first.")
         img2 = img2.astype(img1.dtype)
-- 
2.43.0


From d6d2f13d7fbea6ad4c1ed1a8e5b3541f04803caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:00 +0000
Subject: [PATCH 120/136] fix: scale and bias fit of 2D and 3D images

The objective used the spectral norm of 2D residuals, which does not match its
gradient and gave wrong fits, and it was undefined for 3D residuals. The
products of integer images overflowed.
---
 src/corrct/processing/post.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/corrct/processing/post.py b/src/corrct/processing/post.py
index 7f7a428..1a25e8c 100644
--- a/src/corrct/processing/post.py
+++ b/src/corrct/processing/post.py
@@ -444,6 +444,9 @@ def fit_scale_bias(img_data: NDArray, prj_data: NDArray, prj: BaseTransform | No
     if prj is None:
         prj = TransformIdentity(img_data.shape)
 
+    img_data = img_data.astype(np.result_type(img_data.dtype, np.float32), copy=False)
+    prj_data = prj_data.astype(np.result_type(prj_data.dtype, np.float32), copy=False)
+
     prj_x = prj(img_data)
     prj_1 = prj(np.ones_like(img_data))
     m_y_dot_prj_x = -float(np.sum(prj_data * prj_x))
@@ -458,7 +461,7 @@ def fit_scale_bias(img_data: NDArray, prj_data: NDArray, prj: BaseTransform | No
         residual = prj(img_data * a + b) - prj_data
         grad_a = m_y_dot_prj_x + prj_x_2 * a + prj_1_dot_prj_x * b
         grad_b = m_y_dot_prj_1 + prj_1_2 * b + prj_1_dot_prj_x * a
-        return float(np.linalg.norm(residual, ord=2) ** 2) / 2, np.array((grad_a, grad_b))
+        return float(np.linalg.norm(residual) ** 2) / 2, np.array((grad_a, grad_b))
 
     opt_res = minimize(obj_func, [1.0, 0.0], jac=True)
     return float(opt_res.x[0]), float(opt_res.x[1])
-- 
2.43.0


From 7a98dc22f599c10e70a0b0389fc827667debbb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:00 +0000
Subject: [PATCH 121/136] fix: bias-variance maps of unsigned integer
 reconstructions wrapped around

---
 src/corrct/processing/post.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/corrct/processing/post.py b/src/corrct/processing/post.py
index 1a25e8c..8248cac 100644
--- a/src/corrct/processing/post.py
+++ b/src/corrct/processing/post.py
@@ -400,6 +400,7 @@ def compute_reconstruction_bias_variance_maps(
     so R >= 20 is recommended; R >= 50 gives reliable variance estimates.
     """
     reconstructions = np.array(reconstructions)
+    reconstructions = reconstructions.astype(np.result_type(reconstructions.dtype, np.float32), copy=False)
     recs = np.moveaxis(reconstructions, source=realizations_axis, destination=0)
     ref_ndims = reference.ndim
     if recs.ndim < (ref_ndims + 1) or any(refd != recd for refd, recd in zip(reference.shape, recs.shape[-ref_ndims:])):
-- 
2.43.0


From 78b199f01aa3f9b25863b3134ffd7cbe6bb17568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:00 +0000
Subject: [PATCH 122/136] fix: circular masks of integer or boolean type

The coordinates of the pixels were truncated to the type of the mask.
---
 src/corrct/processing/misc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 5ba8bea..a6d983c 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -68,7 +68,10 @@ def circular_mask(
     vol_shape_zxy_s = np.array(vol_shape_zxy, dtype=int) * super_sampling
 
     coords = [
-        np.linspace(-(s - 1) / (2 * super_sampling), (s - 1) / (2 * super_sampling), s, dtype=dtype) for s in vol_shape_zxy_s
+        np.linspace(
+            -(s - 1) / (2 * super_sampling), (s - 1) / (2 * super_sampling), s, dtype=np.result_type(dtype, np.float32)
+        )
+        for s in vol_shape_zxy_s
     ]
     if vol_origin_zxy is not None:
         if len(coords) != len(vol_origin_zxy):
-- 
2.43.0


From dcb8d3691e7f277c6e5fb4659422c724a8fd9ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:00 +0000
Subject: [PATCH 123/136] fix: error power of unsigned integer volumes wrapped
 around

---
 src/corrct/testing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/corrct/testing.py b/src/corrct/testing.py
index ac93fad..f924e25 100644
--- a/src/corrct/testing.py
+++ b/src/corrct/testing.py
@@ -495,6 +495,7 @@ def compute_error_power(expected_vol: NDArrayFloat, computed_vol: NDArrayFloat)
     Tuple[float, float]
         The expected volume signal power, and the computed volume.
     """
+    expected_vol = expected_vol.astype(np.result_type(expected_vol.dtype, np.float32), copy=False)
     vol_power = np.sqrt(np.sum((expected_vol) ** 2) / expected_vol.size)
     error_power = np.sqrt(np.sum(np.abs(expected_vol - computed_vol) ** 2) / expected_vol.size)
     return vol_power, error_power
-- 
2.43.0


From a91a1b87a4d7abd1823d483dd70de434c1ea46eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:28 +0000
Subject: [PATCH 124/136] fix: ghost imaging of integer images with integer
 masks wrapped around

---
 src/corrct/struct_illum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 1cb4f6f..b540be9 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -891,8 +891,9 @@ class ProjectorGhostImaging(ProjectorOperator):
             self.masks_enc: pt.Tensor = pt.tensor(self.mc.masks_enc, device=device)
             self.masks_dec: pt.Tensor = pt.tensor(self.mc.masks_dec, device=device)
         elif backend == "numpy":
-            self.masks_enc: NDArray = self.mc.masks_enc
-            self.masks_dec: NDArray = self.mc.masks_dec
+            # Integer masks are converted, because sums of products of integers wrap around
+            self.masks_enc: NDArray = np.asarray(self.mc.masks_enc, dtype=np.result_type(self.mc.masks_enc, np.float32))
+            self.masks_dec: NDArray = np.asarray(self.mc.masks_dec, dtype=np.result_type(self.mc.masks_dec, np.float32))
         else:
             raise ValueError(f"Unknown requested backend {self.backend}")
 
-- 
2.43.0


From 7b1ee9d03d7402b3be3447105e1f67fb1696c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 125/136] fix: rotation and tilt angles were scaled by the
 length of the axis

---
 src/corrct/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 88236ed..470c1fd 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -284,7 +284,7 @@ class ProjectionGeometry(Geometry):
         tilt_axis = np.broadcast_to(tilt_axis, (num_tilts, 3))
 
         for angle, axis in zip(angles, tilt_axis):
-            rotations = spt.Rotation.from_rotvec(angle * axis)  # type: ignore
+            rotations = spt.Rotation.from_rotvec(angle * axis / np.linalg.norm(axis))  # type: ignore
 
             if tilt_source:
                 self.src_pos_xyz = rotations.apply(self.src_pos_xyz)
@@ -314,7 +314,8 @@ class ProjectionGeometry(Geometry):
         if patch_astra_2d and self.ndim == 2:
             angles = -angles
 
-        rotations = spt.Rotation.from_rotvec(angles * self.rot_dir_xyz)  # type: ignore
+        rot_dir_xyz = self.rot_dir_xyz / np.linalg.norm(self.rot_dir_xyz, axis=-1, keepdims=True)
+        rotations = spt.Rotation.from_rotvec(angles * rot_dir_xyz)  # type: ignore
 
         return dc_replace(
             self,
-- 
2.43.0


From c84becba98b215c55f33cf1667adad6e86db7208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:38 +0000
Subject: [PATCH 126/136] fix: background and derivatives of unsigned integer
 data in the alignment

---
 src/corrct/alignment/shifts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index d6bd2da..c3d0ca8 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -259,7 +259,8 @@ class DetectorShiftsPRE(DetectorShiftsBase):
             data_vwu = np.mean(data_vwu, axis=-3)
 
         if background is not None:
-            data_vwu = data_vwu - background
+            # Differences of unsigned integers would wrap around
+            data_vwu = data_vwu.astype(np.result_type(data_vwu.dtype, np.float32)) - background
         data_vwu = np.fmax(data_vwu, 0.0)
 
         fx_half_size = (data_vwu.shape[-1] - 1) / 2
@@ -524,8 +525,8 @@ class DetectorShiftsXC(DetectorShiftsBase):
             proj_vwu = proj_dvwu[ii_d]
 
             if use_derivative:
-                data_vwu = np.diff(data_vwu, axis=-1)
-                proj_vwu = np.diff(proj_vwu, axis=-1)
+                data_vwu = np.diff(data_vwu.astype(np.result_type(data_vwu.dtype, np.float32)), axis=-1)
+                proj_vwu = np.diff(proj_vwu.astype(np.result_type(proj_vwu.dtype, np.float32)), axis=-1)
 
             # Allow to choose different shift finding functions
             shifts_vu = fitting.fit_shifts_vu_xc(data_vwu, proj_vwu, decimals=self.decimals, **xc_opts)
-- 
2.43.0


From eb7dae6a7b04a3127c385f02df422575144fcb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:49 +0000
Subject: [PATCH 127/136] fix: regularizers sharing a norm overwrote each
 other's step sizes

---
 src/corrct/regularizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index e296353..39ba3ec 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -6,6 +6,7 @@ Regularizers module.
 and ESRF - The European Synchrotron, Grenoble, France
 """
 
+import copy as cp
 from abc import ABC, abstractmethod
 from collections.abc import Sequence
 
@@ -65,7 +66,8 @@ class BaseRegularizer(ABC):
         self.weight = np.array(weight)
         self.dtype = dtype
         self.op = None
-        self.norm = norm
+        # The norm carries the step sizes (sigma) of its regularizer, so it cannot be shared with others
+        self.norm = cp.deepcopy(norm)
         self.upd_mask = upd_mask
 
     def info(self) -> str:
-- 
2.43.0


From dd36ec3592bd3a2cbaabef60fb09f57ad89ca7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:49 +0000
Subject: [PATCH 128/136] fix: limit constraints were applied outside of their
 update mask in FISTA

---
 src/corrct/regularizers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 39ba3ec..160ae2d 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1715,7 +1715,8 @@ class Constraint_LowerLimit(BaseRegularizer):
         tau : float | NDArray
             The proximal step size (unused for indicator functions, kept for API consistency).
         """
-        np.fmax(primal, self.limit, out=primal)
+        limited = np.fmax(primal, self.limit)
+        primal[:] = limited if self.upd_mask is None else np.where(self.upd_mask, limited, primal)
 
 
 class Constraint_UpperLimit(BaseRegularizer):
@@ -1783,4 +1784,5 @@ class Constraint_UpperLimit(BaseRegularizer):
         tau : float | NDArray
             The proximal step size (unused for indicator functions, kept for API consistency).
         """
-        np.fmin(primal, self.limit, out=primal)
+        limited = np.fmin(primal, self.limit)
+        primal[:] = limited if self.upd_mask is None else np.where(self.upd_mask, limited, primal)
-- 
2.43.0


From f11dbc65bd606048e49fea2f1c49c23267088ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:30 +0000
Subject: [PATCH 129/136] fix: spectral norms other than l1 were ignored by the
 nuclear norms

---
 src/corrct/data_terms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 835a63a..8031148 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -760,9 +760,15 @@ class DataFidelity_ln(DataFidelityBase):
     ):
         super().__init__(background=background)
         self.ln_axes = ln_axes
-        self.spectral_norm = spectral_norm
+        self.spectral_norm = deepcopy(spectral_norm)
         self.use_fallback = False
 
+    def assign_data(self, data: float | NDArrayFloat | None = None, sigma: float | NDArrayFloat = 1.0) -> None:
+        super().assign_data(data, sigma)
+        if np.size(sigma) == 1:
+            # The singular values have the same step size as the dual
+            self.spectral_norm.assign_data(None, sigma=sigma)
+
     def apply_proximal_dual(self, dual: NDArrayFloat) -> None:
         dual_tmp = dual.copy()
 
-- 
2.43.0


From 1db4f29a77f41fa02ad586acc216da3f63994909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:40 +0000
Subject: [PATCH 130/136] fix: attenuation maps selected with NumPy integers
 lost an axis

---
 src/corrct/physics/attenuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index 623fbd3..06b54a4 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -279,12 +279,12 @@ class AttenuationVolume:
         maps = self.maps
 
         if rot_ind is not None:
-            if isinstance(rot_ind, int):
+            if isinstance(rot_ind, (int, np.integer)):
                 rot_ind = slice(rot_ind, rot_ind + 1, 1)
             maps = maps[rot_ind, ...]
 
         if det_ind is not None:
-            if isinstance(det_ind, int):
+            if isinstance(det_ind, (int, np.integer)):
                 det_ind = slice(det_ind, det_ind + 1, 1)
             maps = maps[:, det_ind, ...]
 
-- 
2.43.0


From 583e62b1cc3cf850c72dafe6a448b6140203695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:11 +0000
Subject: [PATCH 131/136] fix: 2D fan-beam geometries were given an invalid
 ASTRA type

---
 src/corrct/_projector_backends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 2b443eb..0de9416 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -474,7 +474,7 @@ class ProjectorBackendASTRA(ProjectorBackend):
             # vector from detector pixel 0 to 1
             vectors[:, 4:6] = rot_geom.get_field_scaled("det_u_xyz")
 
-            geom_type_str = prj_geom.geom_type[:-2]
+            geom_type_str = prj_geom.geom_type.replace("2d", "")
 
         if self.has_individual_projs:
             self.proj_geom_ind = [
-- 
2.43.0


From 9ad5d55a3e52a55673ff1634dc4d920278cfa40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:11 +0000
Subject: [PATCH 132/136] fix: the 3D version of 2D fan-beam geometries was
 still 2D

---
 src/corrct/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 470c1fd..6ad4d20 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -156,7 +156,8 @@ class ProjectionGeometry(Geometry):
                 new_det_shape_vu[-len(self.det_shape_vu) :] = self.det_shape_vu
             else:
                 new_det_shape_vu = None
-            return dc_replace(self, geom_type=self.geom_type.replace("2d", "3d"), det_shape_vu=new_det_shape_vu)
+            new_geom_type = "cone" if self.geom_type == "fanflat" else self.geom_type.replace("2d", "3d")
+            return dc_replace(self, geom_type=new_geom_type, det_shape_vu=new_det_shape_vu)
         else:
             return dc_replace(self)
 
-- 
2.43.0


From 7dbacd43b72d132e65634f7a8fec8d60a649b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:36 +0000
Subject: [PATCH 133/136] fix: the reference of vectorial wavelets was not on
 the scale of their dual

---
 src/corrct/regularizers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 160ae2d..0d3759c 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1549,6 +1549,9 @@ class Regularizer_vl1wl(Regularizer_l1swl):
 
             self.q_ref = self.op(self.x_ref)
             self.q_ref = np.expand_dims(self.q_ref, axis=1)
+            if not self.normalized:
+                # The reference should be on the same scale as the dual
+                self.q_ref = self.q_ref * self.sigma
 
         return tau
 
-- 
2.43.0


From ea800364bb97e6ed0c0a2a8b043bf3ffdf3d7ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 134/136] fix: extents of non-square attenuation maps were
 swapped in plots

---
 src/corrct/physics/attenuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index 06b54a4..25b6258 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -224,7 +224,8 @@ class AttenuationVolume:
         slice_shape = self.vol_shape_zyx[list(axes)]
         coords = [(-(s - 1) / 2, (s - 1) / 2) for s in slice_shape]
 
-        extent = tuple(np.concatenate(coords))
+        # The horizontal coordinates (i.e. the last axis of the slice) come first
+        extent = tuple(np.concatenate(coords[::-1]))
         ax.imshow(att_map, extent=extent)
 
         if other_dim == -3:
-- 
2.43.0


From 25b71d7c5f55a3f1e1e23d8ce2397168e09be618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 135/136] fix: plots of transmittance decays were not shown

---
 src/corrct/physics/attenuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index 25b6258..e85340c 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -493,4 +493,4 @@ def plot_transmittance_decay(
     axs.set_ylim(0.0, 1.0)
     axs.set_title(f"Transmittance curve at {mean_energy_keV:.2f} keV", fontsize=14)
     fig.tight_layout()
-    plt.plot(block=False)
+    plt.show(block=False)
-- 
2.43.0


From 864721975fb13fd8c5c5f513bcae4f2f6982c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 136/136] fix: beam shapes were squeezed in the plots of their
 PSF

---
 src/corrct/physics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/physics/__init__.py b/src/corrct/physics/__init__.py
index 91c5330..0c74925 100644
--- a/src/corrct/physics/__init__.py
+++ b/src/corrct/physics/__init__.py
@@ -100,7 +100,7 @@ def pencil_beam_profile(
 
         pixels_pos = np.linspace(-(y_points - 1) / 2, (y_points - 1) / 2, y_points)
         ax[1].bar(pixels_pos, y, label="PSF values", color="C1", width=1, linewidth=1.5, edgecolor="k", alpha=0.75)  # type: ignore
-        ax[1].plot(xc / extent_um * profile_size * 2, yc, label="Resulting beam shape")  # type: ignore
+        ax[1].plot(xc / voxel_size_um, yc, label="Resulting beam shape")  # type: ignore
         ax[1].legend()  # type: ignore
         ax[1].grid()  # type: ignore
         fig.tight_layout()
-- 
2.43.0

