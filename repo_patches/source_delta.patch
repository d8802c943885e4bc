From 88e7a7baada6e985d5359a41f5a96941e90cc85a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 01/45] fix: load stored evolving tensors (the constructor
 takes no all_same_size)

---
 src/tenkit/decomposition/decompositions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index f8c9afa..745bf64 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -438,9 +438,8 @@ class EvolvingTensor(BaseDecomposedTensor):
         B = [group[cls.B_template.format(k)][...] for k in range(group.attrs['num_Bs'])]
         C = group['C'][...]
         warning = group.attrs['warning']
-        all_same_size = group.attrs['all_same_size']
 
-        return cls(A, B, C, all_same_size=all_same_size, warning=warning)
+        return cls(A, B, C, warning=warning)
     
     def __getitem__(self, item):
         if item == 0:
-- 
2.43.0


From 0cf7c2b3f5c70602e3d0e02d434959195e770be3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 02/45] fix: separate mode factor match scores called functions
 that do not exist

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 745bf64..b731d9c 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -217,7 +217,7 @@ class KruskalTensor(BaseDecomposedTensor):
                                           fms_reduction=fms_reduction)
     
     def seperate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
-        return metrics.seperate_mode_factor_match_score(self.factor_matrices,
+        return metrics.separate_mode_factor_match_score(self.factor_matrices,
                                                         decomposition.factor_matrices, 
                                                         fms_reduction=fms_reduction)
     def get_sign_scores(self, X):
@@ -471,7 +471,7 @@ class EvolvingTensor(BaseDecomposedTensor):
 
     def separate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
         if not isinstance(decomposition, EvolvingTensor):
-            decomposition = decomposition.to_evolving_tensor()
+            decomposition = EvolvingTensor.from_kruskaltensor(decomposition)
         return metrics.separate_mode_factor_match_score([self.A, self.B_unfolded, self.C],
                                                       [decomposition.A, decomposition.B_unfolded, decomposition.C], 
                                                        fms_reduction=fms_reduction)
-- 
2.43.0


From f148bbcaff349d6370e112ab34f3cc9b85b35d3b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 03/45] fix: keep the weights when converting a Kruskal tensor
 to an evolving tensor

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index b731d9c..5614370 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -334,7 +334,7 @@ class EvolvingTensor(BaseDecomposedTensor):
 
         if len(ktensor.factor_matrices) != 3:
             raise ValueError('Kruskal tensor must be third order to be converted into an evolving tensor')
-        A = ktensor.factor_matrices[0]
+        A = ktensor.factor_matrices[0]*ktensor.weights
         B = ktensor.factor_matrices[1]
         C = ktensor.factor_matrices[2]
 
-- 
2.43.0


From fc7da4cebcf8e46a6a381c735c95a41f679f3524 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 04/45] fix: factor match score and single components of
 irregular PARAFAC2 tensors

---
 src/tenkit/decomposition/decompositions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 5614370..78fab71 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -687,8 +687,8 @@ class Parafac2Tensor(EvolvingTensor):
     def factor_match_score(self, decomposition, weight_penalty=True, fms_reduction='min'):
         assert decomposition.rank == self.rank
 
-        factors1 = [self.A, np.array(self.B).reshape(-1, self.rank), self.C]
-        factors2 = [decomposition.A, np.array(decomposition.B).reshape(-1, self.rank), decomposition.C]
+        factors1 = [self.A, self.B_unfolded, self.C]
+        factors2 = [decomposition.A, decomposition.B_unfolded, decomposition.C]
 
         return metrics.factor_match_score(factors1, 
                                           factors2, 
@@ -697,12 +697,13 @@ class Parafac2Tensor(EvolvingTensor):
 
     def get_single_component_decomposition(self, component):
         A = self.A[:, component, np.newaxis]
-        B = self.B[:, ..., component, np.newaxis]
+        B = [Bk[:, component, np.newaxis] for Bk in self.B]
         C = self.C[:, component, np.newaxis]
 
         single_component_decomposition = EvolvingTensor(
             A = A,
             B = B,
             C = C,
+            warning = self.warning,
         )
         return single_component_decomposition
-- 
2.43.0


From 563d8c1d49039a223f4318cceaed10c3d5cedf98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 05/45] fix: account for the weights in the factor match score
 and core consistency of Kruskal tensors

---
 src/tenkit/decomposition/decompositions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 78fab71..253ba51 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -131,6 +131,11 @@ class KruskalTensor(BaseDecomposedTensor):
     def shape(self):
         return [fm.shape[0] for fm in self.factor_matrices]
     
+    @property
+    def _weighted_factor_matrices(self):
+        """The factor matrices with the weights moved into the first one."""
+        return [self.weights*self.factor_matrices[0], *self.factor_matrices[1:]]
+
     def construct_tensor(self):
 
         shape = [f.shape[0] for f in self.factor_matrices]
@@ -211,8 +216,8 @@ class KruskalTensor(BaseDecomposedTensor):
     def factor_match_score(self, decomposition, weight_penalty=True, fms_reduction='min'):
         assert decomposition.rank == self.rank
 
-        return metrics.factor_match_score(self.factor_matrices, 
-                                          decomposition.factor_matrices, 
+        return metrics.factor_match_score(self._weighted_factor_matrices, 
+                                          decomposition._weighted_factor_matrices, 
                                           weight_penalty=weight_penalty, 
                                           fms_reduction=fms_reduction)
     
@@ -273,7 +278,7 @@ class KruskalTensor(BaseDecomposedTensor):
     def core_consistency(self, X, normalized=False):
         if len(self.factor_matrices) != 3:
             raise ValueError('Core consistency is only implemented for third order tensors')
-        return metrics.core_consistency(X, *self.factor_matrices, normalized=normalized)
+        return metrics.core_consistency(X, *self._weighted_factor_matrices, normalized=normalized)
         
 
 class EvolvingTensor(BaseDecomposedTensor):
-- 
2.43.0


From 69f1ce69a9af81f3e7f5dd828abc38b39b81ae3d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 06/45] fix: integer weights could not be normalised

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 253ba51..15a96f9 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -125,7 +125,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'There must be as many weights as there are columns in the factor matrices.'
                     f'The factor matrices has {self.rank} columns, but there are {len(weights)} weights.'
                 )
-        self.weights = np.asarray(weights)
+        self.weights = np.asarray(weights, dtype=float)
     
     @property
     def shape(self):
-- 
2.43.0


From bd695cece549e78f691d61cd31776d8d4bf260e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 07/45] fix: count all elements of the slices in the PARAFAC2
 mean squared error

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 15a96f9..b187ffc 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -327,7 +327,7 @@ class EvolvingTensor(BaseDecomposedTensor):
         self.warning = warning
         self.all_same_size = self._check_all_same_size(B)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B]
-        self.num_elements = sum((shape[1] for shape in self.slice_shapes))
+        self.num_elements = sum((shape[0]*shape[1] for shape in self.slice_shapes))
 
     @classmethod
     def from_kruskaltensor(cls, ktensor, allow_same_class=False):
@@ -604,7 +604,7 @@ class Parafac2Tensor(EvolvingTensor):
 
         self.all_same_size = self._check_all_same_size(projection_matrices)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B] 
-        self.num_elements = sum(shape[1] for shape in self.slice_shapes)
+        self.num_elements = sum(shape[0]*shape[1] for shape in self.slice_shapes)
 
         self.warning = warning
 
-- 
2.43.0


From d6c7153e70d9496c388021fbdbf9b4bc77289ad6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:23 +0000
Subject: [PATCH 08/45] fix: rightsolve inverted the rounding errors of
 rank-deficient systems

---
 src/tenkit/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 4d63dc8..5b71677 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -8,7 +8,9 @@ def rightsolve(A, B):
     """Solve the equation X*A = B wrt X.
     """
     U, S, Vh = np.linalg.svd(A, full_matrices=False)
-    S[S != 0] = 1/S[S != 0]
+    should_keep = S > max(A.shape) * np.max(S) * np.finfo(S.dtype).eps
+    S[should_keep] = 1/S[should_keep]
+    S[~should_keep] = 0
 
     return B @ (Vh.T * S @ U.T)
 
-- 
2.43.0


From 99dcc9d3ad1ec3ac397f6fd078f7d7c523fc4670 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:23 +0000
Subject: [PATCH 09/45] fix: non-negative rightsolve of a single right-hand
 side vector

---
 src/tenkit/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 5b71677..b21b142 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -20,7 +20,7 @@ def non_negative_rightsolve(A, B):
     """
     # Discussion tracking in Enron Email Using PARAFAC has non negative updates
     if len(B.shape) == 1:
-        B = B[np.newaxis, B]
+        B = B[np.newaxis, :]
 
     x = np.zeros((B.shape[0], A.shape[0]))
     for i, b_i in enumerate(B):
-- 
2.43.0


From 760e2b55fc02a1aad953afa160800f0f27a45116 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:23 +0000
Subject: [PATCH 10/45] fix: the data generators used base.ktensor, which did
 not exist

---
 src/tenkit/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index b21b142..dcb383d 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -193,6 +193,13 @@ def _mttkrp_mid_with_krp(tensor, krp):
     return product
 
 
+def ktensor(*factors):
+    """Construct the tensor given by a list of factor matrices.
+    """
+    shape = [factor.shape[0] for factor in factors]
+    return fold(factors[0] @ khatri_rao(*factors[1:]).T, 0, shape)
+
+
 def unfold(A, n):
     """Unfold tensor to matricizied form.
     
-- 
2.43.0


From a8baa18dee32e7693fb76fb9abd59b9c3fbaadc2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:24 +0000
Subject: [PATCH 11/45] fix: orthonormal starting factors were detached from
 shared models and sign-flipped

---
 src/tenkit/decomposition/cp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 4154beb..d3d9503 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -343,7 +343,9 @@ class CP_ALS(BaseCP):
         for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
             if orthogonality:
-                self.decomposition.factor_matrices[mode] = np.linalg.qr(fm)[0]
+                Q, R = np.linalg.qr(fm)
+                # In place, for the arrays may be shared. The signs of Q are chosen so that orthonormal factors are kept.
+                fm[...] = Q*np.where(np.diag(R) < 0, -1, 1)
 
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
-- 
2.43.0


From 5f1233288b3eb3120660953f19ec0867810a56e1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:24 +0000
Subject: [PATCH 12/45] fix: CP models reused the cached error terms of their
 previous target or factors

---
 src/tenkit/decomposition/cp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index d3d9503..262e486 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -86,6 +86,14 @@ class BaseCP(BaseDecomposer):
         self.ridge_penalties = ridge_penalties
         self.rel_loss_tol = rel_loss_tol
 
+    def set_target(self, X):
+        super().set_target(X)
+        self._last_updated_mode = None
+
+    def load_checkpoint(self, checkpoint_path, load_it=None):
+        super().load_checkpoint(checkpoint_path, load_it=load_it)
+        self._last_updated_mode = None
+
     def init_random(self):
         """Random initialisation of the factor matrices.
 
-- 
2.43.0


From 01d6298322acbe98e7a97a6cd595aa2f0967bc6f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:24 +0000
Subject: [PATCH 13/45] fix: rounding could make the sum squared error negative
 and its root NaN

---
 src/tenkit/decomposition/cp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 262e486..8b6c6f8 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -180,10 +180,11 @@ class BaseCP(BaseDecomposer):
             # ||X - Y||_F^2 = ||X||_F^2 + ||Y||_F^2 - 2<X, Y>_F
             # Y = [U_0, U_1, U_2], <X, Y> = sum(U_i*mttkrp(X, Y, skip=i))
             
-            return (
+            return np.maximum(
                 self.X_norm**2
                  + np.linalg.norm(self.reconstructed_X)**2
-                 - 2*self._inner_prod_X_reconstructed_X
+                 - 2*self._inner_prod_X_reconstructed_X,
+                0
             )
             
         return np.linalg.norm(self.X - self.reconstructed_X)**2
-- 
2.43.0


From 386b4f1d18221a52f544ed9c67e4b7bae1852cb0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:24 +0000
Subject: [PATCH 14/45] fix: the weights of a precomputed CP start were
 discarded

---
 src/tenkit/decomposition/cp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 8b6c6f8..7f1c4b6 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -344,6 +344,7 @@ class CP_ALS(BaseCP):
 
     def _init_fit(self, X, max_its, initial_decomposition):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        self.decomposition.factor_matrices[0][...] *= self.decomposition.weights
         self.decomposition.reset_weights()
         if self.non_negativity_constraints is None:
             self.non_negativity_constraints = [False]*len(self.factor_matrices)
-- 
2.43.0


From 41691e46925a102ab435bc1508933fc4efbe1146 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:32 +0000
Subject: [PATCH 15/45] fix: constrained and ridge ALS updates minimised the
 wrong norm

The Gram matrix and the MTTKRP were passed to the constrained and ridge
solvers as if they were the least squares problem itself, so the updates
could increase the loss.
---
 src/tenkit/base.py               | 20 ++++++++++++++++++++
 src/tenkit/decomposition/cmtf.py |  3 +++
 src/tenkit/decomposition/cp.py   |  9 ++++++++-
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index dcb383d..51aff82 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -62,6 +62,26 @@ def add_rightsolve_ridge(rightsolve, ridge_penalty):
     return ridge_rightsolve
 
 
+def normal_equations_rightsolve(rightsolve):
+    """Make a (constrained or regularised) rightsolve take the normal equations.
+
+    The returned function takes ``A@A.T`` and ``B@A.T`` and solves X*A = B wrt X.
+    """
+    def normal_rightsolve(AAt, BAt):
+        # Find A_ and B_ with A_@A_.T = AAt and B_@A_.T = BAt. Then, the squared
+        # errors of X*A_ = B_ and X*A = B have the same minimisers. The rows of A
+        # are scaled to unit norm first, so small components are not truncated.
+        norms = np.sqrt(np.diag(AAt))
+        norms = np.where(norms == 0, 1, norms)
+        S, U = np.linalg.eigh(AAt / np.outer(norms, norms))
+        should_keep = S > len(S) * np.max(S) * np.finfo(S.dtype).eps
+        sqrt_S = np.sqrt(np.where(should_keep, S, 0))
+        inv_sqrt_S = np.where(should_keep, 1/np.where(should_keep, sqrt_S, 1), 0)
+
+        return rightsolve(norms[:, np.newaxis]*U*sqrt_S, ((BAt/norms) @ U)*inv_sqrt_S)
+    return normal_rightsolve
+
+
 def kron_binary_vectors(u, v):
     """Efficient Kronecker product between two vectors.
     """
diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 704f0c3..c74b4ba 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -152,6 +152,9 @@ class CMTF_ALS(CP_ALS):
                 self._update_als_factor(mode)
         self._update_uncoupled_matrix_factors()
 
+    def _has_normal_equations(self, mode):
+        return mode not in self.mode_to_cm_idx
+
     def _get_als_lhs(self, mode):
         if mode in self.mode_to_cm_idx:
             khatri_rao_product= base.khatri_rao(*self.factor_matrices, skip=mode)
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 7f1c4b6..029962e 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -390,10 +390,17 @@ class CP_ALS(BaseCP):
             ridge_penalty = self.ridge_penalties[mode]
             # fm_shape = np.prod(self.factor_matrices[mode].shape)
             rightsolve = base.add_rightsolve_ridge(rightsolve, ridge_penalty)#/fm_shape)
-        
+
+        # Constrained and regularised solutions depend on the least squares problem, not only on its normal equations
+        if rightsolve is not base.rightsolve and self._has_normal_equations(mode):
+            rightsolve = base.normal_equations_rightsolve(rightsolve)
 
         return rightsolve
 
+    def _has_normal_equations(self, mode):
+        """Whether `_get_als_lhs` and `_get_als_rhs` give normal equations for this mode."""
+        return True
+
     def _update_als_factor(self, mode):
         """Solve least squares problem to get factor for one mode."""
         lhs = self._get_als_lhs(mode)
-- 
2.43.0


From 6167ca7e36c71a15ea491ad3e2e02066d30ebdc6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:32 +0000
Subject: [PATCH 16/45] fix: PARAFAC2 fit_transform ignored max_its and
 initial_decomposition

---
 src/tenkit/decomposition/parafac2.py | 882 +++++++++++++--------------
 1 file changed, 441 insertions(+), 441 deletions(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index a804457..97484f4 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -1,441 +1,441 @@
-from abc import abstractmethod
-from pathlib import Path
-import warnings
-import numpy as np
-from .base_decomposer import BaseDecomposer
-from . import decompositions
-from . import cp
-from ..utils import normalize_factors, get_pca_loadings
-from .. import base
-
-
-__all__ = ['Parafac2_ALS']
-
-
-class BaseParafac2(BaseDecomposer):
-    r"""Base class for Parafac2 decomposer objects
-
-    Arguments:
-    ----------
-    rank: int
-        Number of components 
-    max_its: int (optional, default=1000)
-        Maximum number of iterations for fitting the model. 
-        Can be overwritten by the ``fit`` method.
-    convergence_tol: float (optional, default=1e-6)
-        Minimum relative function change between two consequetive
-        iterations for the model to continue fitting. Computed as
-        
-        .. math::
-
-            \frac{L(X_i) - L(X_{i+1})}{L(X_{i+1})},
-        
-        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
-        is the decomposition at iteration :math:`i`.
-    init: str (optional, default = 'random')
-        Initialisation scheme for the decomposer (case insensitive). Options:
-    
-          * Random: Initiate the decomposition as a random Parafac2 tensor
-          * SVD: Use the SVD to find the factor matrices
-          * CP: Run 20 CP iterations and use that decomposition as initial
-          Parafac2 tensor (QR on the evolving mode to split into projection
-          and blueprint matrices)
-          * from_checkpoint: Load the last iteration in the specified
-          checkpoint file (alternatively, just the path to the decomposition file)
-          * Precomputed: Use already existing Parafac2 tensor to initialise
-          the decomposition. 
-
-    logger: list(Logger) (optional, default=None)
-        List of loggers, each logger should implement a ``log`` method
-        that takes a decomposer as input and a ``write_to_hdf5_group``
-        method that stores the log in a hdf5 group. See 
-        ``tenkit.logging.BaseLogger`` for interface.
-    checkpoint_frequency: int (optional, default=None)
-        How often the decomposer should store the decomposition and
-        logs to disk. If None or negative, will only
-        checkpoint the last iteration. 
-    checkpoint_path: str or Path (optional, default=None)
-        Where to store the log HDF5 file. If None, then the checkpoints
-        and logs are not stored to disk.
-    print_frequency: int (optional, default=None)
-        How often convergence information should be printed in the terminal.
-        None and negative values leads to no printing.
-    """
-    DecompositionType = decompositions.Parafac2Tensor
-    def __init__(self, 
-        rank, 
-        max_its=1000, 
-        convergence_tol=1e-6, 
-        init='random',
-        loggers=None,
-        checkpoint_frequency=None,
-        checkpoint_path=None,
-        print_frequency=10,
-    ):
-        super().__init__(
-            max_its=max_its,
-            convergence_tol=convergence_tol,
-            loggers=loggers,
-            checkpoint_frequency=checkpoint_frequency,
-            checkpoint_path=checkpoint_path,
-            print_frequency=print_frequency,
-        )
-
-        self.rank = rank
-        self.init = init
-
-    def set_target(self, X):
-        if not isinstance(X, list):
-            self.target_tensor = X
-            X = X.transpose(2, 0, 1)
-        
-        self.X = X
-        self.X_shape = [len(X[0]), [Xk.shape[1] for Xk in X], len(X)]    # len(A), len(Bk), len(C)
-        self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))
-        self.num_X_elements = sum([np.prod(s) for s in self.X_shape])
-
-    def init_random(self):
-        """Random initialisation of the factor matrices
-        """
-        self.decomposition = self.DecompositionType.random_init(self.X_shape, rank=self.rank)
-
-    def init_svd(self):
-        """SVD initalisation
-        """
-        # TODO: This does not work for irregular tensors
-        K = self.X_shape[2]
-        J = self.X_shape[1]
-        Y = np.zeros([J, J])
-
-        for k in range(K):
-            Y += self.X[k].T @ self.X[k]
-
-        A = get_pca_loadings(Y, self.rank)
-        blueprint_B = np.identity(self.rank)
-        C = np.ones((K, self.rank))
-
-        P = [np.eye(J, self.rank) for k in range(K)]
-        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
-
-        self._update_projection_matrices()
-    
-    def init_cp(self):
-        """CP initialisation. Input must be a tensor.
-        """
-        X = np.asarray(self.X)
-        cp_als = cp.CP_ALS(self.rank, 20)
-        cp_als.fit(X)
-        C, A, B = cp_als.factor_matrices
-        P, blueprint_B = np.linalg.qr(B)
-        P = [P for _ in range(len(self.X))]
-        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
-
-    def init_components(self, initial_decomposition=None):
-        if self.init.lower() == 'svd':
-            self.init_svd()
-        elif self.init.lower() == 'random':
-            self.init_random()
-        elif self.init.lower() == 'cp':
-            self.init_cp()
-        elif self.init.lower() == 'from_checkpoint':
-            self.load_checkpoint(initial_decomposition)
-        elif self.init.lower() == 'precomputed':
-            self._check_valid_components(initial_decomposition)
-            self.decomposition = initial_decomposition
-        elif Path(self.init).is_file():
-            self.load_checkpoint(self.init)
-        else:
-            # TODO: better message
-            raise ValueError('Init method must be either `random`, `svd`, `from_checkpoint` or `precomputed`.')
-
-    def _check_valid_components(self, decomposition):
-        for i, factor_matrix, factor_name in zip([0, 2], [decomposition.A, decomposition.C], ['A', 'C']):
-            if factor_matrix.shape[0] != self.X_shape[i]:
-                raise ValueError(
-                    f"The length of factor matrix {factor_name} ({factor_matrix.shape[0]}"
-                    f"is not the same as the length of X's dimension {i} ({self.X_shape[i]})"
-                )
-            if factor_matrix.shape[1] != self.rank:
-                raise ValueError(
-                    f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
-                )
-        
-        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
-            if B.shape[0] != X_slice.shape[1]:
-                raise ValueError(
-                    f"The number of rows of factor matrix B_{k} ({B.shape[0]}"
-                    f"is not the same as the number of columns of X_{k} ({X_slice.shape[1]})"
-                )
-
-            if B.shape[1] != self.rank:
-                raise ValueError(
-                    f"The number of columns of B_{k} ({B.shape[1]}) does not agree with the models rank ({self.rank})"
-                )
-
-    @abstractmethod
-    def _fit(self):
-        pass
-
-    def fit(self, X, y=None, max_its=None, initial_decomposition=None):
-        """Fit a parafac2 model. Precomputed components must be specified if init method is 'precomputed'
-
-        Arguments:
-        ----------
-        X : np.ndarray
-            The tensor or list of tensor slices to fit a PARAFAC2 model to. 
-            The list indices (or first mode) correspond to the C-mode in
-            the following equation
-
-            .. math::
-
-                X_k = A diag(c_k) B_k^T
-            
-            This will be changed in a later version so that the first mode
-            is the evolving mode.
-        y : None
-            Ignored, included to follow sklearn standards.
-        max_its : int (optional)
-            If set, then this will override the class's max_its.
-        initial_decomposition : tenkit.decomposition.decompositions.Parafac2Tensor or str
-            The initial KruskalTensor (init=precomputed) to use or the path of the 
-            logfile to load (init=from_file).
-        """
-
-        self._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self._fit()
-
-    def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
-        self.fit(X, y=None, max_its=None, initial_decomposition=None)
-        return self.decomposition
-
-    @property
-    def loss(self):
-        return self.SSE
-
-    def _fit(self):
-        return 1 - self.SSE/(self.X_norm**2)
-
-    @property
-    def SSE(self):
-        SSE = 0
-        for X_k, reconstructed_X_k, in zip(self.X, self.reconstructed_X):
-            SSE += np.sum((X_k - reconstructed_X_k)**2)
-        return SSE
-
-    @property
-    def MSE(self):
-        return self.SSE/self.decomposition.num_elements
-        
-    @property
-    def reconstructed_X(self):
-        return self.decomposition.construct_slices()
-    
-    @property
-    def projected_X(self):
-        I = self.decomposition.A.shape[0]
-        K = self.decomposition.C.shape[0]
-        projected_X = np.empty((I, self.rank, K))
-
-        for k, projection_matrix in enumerate(self.decomposition.projection_matrices):
-            projected_X[..., k] = self.X[k]@projection_matrix
-        return projected_X
-
-    # TODO: Change name of this function
-    def _update_projection_matrices(self):
-        K = self.X_shape[2]
-
-        for k in range(K):
-            A = self.decomposition.A
-            C = self.decomposition.C
-            blueprint_B = self.decomposition.blueprint_B
-
-            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(
-                (C[k]*A)@blueprint_B.T,
-                self.X[k]
-            ).T
-
-            # Should_keep = diag([1, 1, ..., 1, 0, 0, ..., 0]) -> the zeros correspond to small singular values
-            # Following Rasmus Bro's PARAFAC2 MATLAB script, which sets P_k = Q_k(Q_k'Q_k)^(-0.5) (line 524)
-            #      Where the power is done by truncating very small singular values (for numerical stability)
-
-
-class Parafac2_ALS(BaseParafac2):
-    r"""Decomposer for Parafac2 with ALS optimization
-
-    Arguments:
-    ----------
-    rank: int
-        Number of components 
-    max_its: int (optional, default=1000)
-        Maximum number of iterations for fitting the model. 
-        Can be overwritten by the ``fit`` method.
-    convergence_tol: float (optional, default=1e-6)
-        Minimum relative function change between two consequetive
-        iterations for the model to continue fitting. Computed as
-        
-        .. math::
-
-            \frac{L(X_i) - L(X_{i+1}) }{L(X_{i+1})},
-        
-        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
-        is the decomposition at iteration :math:`i`.
-    init: str (optional, default = 'random')
-        Initialisation scheme for the decomposer (case insensitive). Options:
-    
-          * Random: Initiate the decomposition as a random Parafac2 tensor
-          * SVD: Use the SVD to find the factor matrices
-          * CP: Run 20 CP iterations and use that decomposition as initial
-          Parafac2 tensor (QR on the evolving mode to split into projection
-          and blueprint matrices)
-          * from_checkpoint: Load the last iteration in the specified
-          checkpoint file (alternatively, just the path to the decomposition file)
-          * Precomputed: Use already existing Parafac2 tensor to initialise
-          the decomposition. 
-    logger: list(Logger) (optional, default=None)
-        List of loggers, each logger should implement a ``log`` method
-        that takes a decomposer as input and a ``write_to_hdf5_group``
-        method that stores the log in a hdf5 group. See 
-        ``tenkit.logging.BaseLogger`` for interface.
-    checkpoint_frequency: int (optional, default=None)
-        How often the decomposer should store the decomposition and
-        logs to disk. If None or negative, will only
-        checkpoint the last iteration. 
-    checkpoint_path: str or Path (optional, default=None)
-        Where to store the log HDF5 file. If None, then the checkpoints
-        and logs are not stored to disk.
-    print_frequency: int (optional, default=None)
-        How often convergence information should be printed in the terminal.
-        None and negative values leads to no printing.
-    cp_updates_per_it: int (optional, default=5)
-        Number of CP iterations to run between each projection matrix update.
-    non_negativity_constraints: list(bool) (optional, default=None)
-        If nth element in the list is True, the nth mode is constrained to be
-        non-negative. If None, no modes are constrained.
-        Note: The evolving mode cannot be constrained. 
-    ridge_penalties: list(float) (optional, default=None)
-        Regularisation parameters. The loss is regularised such that
-
-        .. math::
-
-            L_{reg} = L + \sum_i \lambda_i ||U_i||_F^2
-
-        Where :math:`L_{reg}` is the regularised loss, :math:`L` is the unregularised
-        loss, :math:`\lambda_i` is the ith element in ``ridge_penalites`` and :math:`U_i`
-        is the ith factor matrix (or blueprint factor matrix for the evolving mode). 
-        If None, no modes are regularised.
-    orthonormality_constraints: list(bool) (optional, default=None)
-        If nth element in the list is True, the nth mode is constrained to be
-        orthonormal. If None, no modes are constrained. Note: all modes should not be
-        orhtonormal and the evolving mode cannot be constrained. 
-    """
-    def __init__(
-        self,
-        rank,
-        max_its=1000, 
-        convergence_tol=1e-6, 
-        init='random',
-        loggers=None,
-        checkpoint_frequency=None,
-        checkpoint_path=None,
-        print_frequency=10,
-        cp_updates_per_it=5,
-        non_negativity_constraints=None,
-        ridge_penalties=None,
-        orthonormality_constraints=None,
-    ):
-        super().__init__(
-            rank,
-            max_its=max_its,
-            convergence_tol=convergence_tol,
-            init=init,
-            loggers=loggers,
-            checkpoint_frequency=checkpoint_frequency,
-            checkpoint_path=checkpoint_path,
-            print_frequency=print_frequency,
-        )
-        self.non_negativity_constraints = non_negativity_constraints
-        if self.non_negativity_constraints is None:
-            self.non_negativity_constraints = [False, False, False]
-        if self.non_negativity_constraints[1]:
-            warnings.warn(
-                "Non negativity constraints on the evolving (second) mode will only"
-                " be imposed on the blueprint matrix, not the evolving components.",
-                RuntimeWarning
-            )
-
-        self.cp_updates_per_it = cp_updates_per_it
-        self.ridge_penalties = ridge_penalties
-        self.orthonormality_constraints = orthonormality_constraints
-
-    def _init_fit(self, X, max_its, initial_decomposition):
-        super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self.prev_loss = self.loss
-        self._rel_function_change = np.inf
-
-    def _prepare_cp_decomposer(self):
-        self.cp_decomposition = decompositions.KruskalTensor([self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C])
-        self.cp_decomposer = cp.CP_ALS(
-            self.rank,
-            max_its=np.inf, 
-            convergence_tol=0,
-            print_frequency=-1, 
-            non_negativity_constraints=self.non_negativity_constraints,
-            ridge_penalties=self.ridge_penalties,
-            orthonormality_constraints=self.orthonormality_constraints,
-            init='precomputed'
-        )
-        self.cp_decomposer._init_fit(X=self.projected_X, max_its=np.inf, initial_decomposition=self.cp_decomposition)
-
-    def _fit(self):
-
-        self._prepare_cp_decomposer()
-        for it in range(self.max_its - self.current_iteration):
-            if abs(self._rel_function_change) < self.convergence_tol:
-                break
-
-            self._update_parafac2_factors()
-            self._update_convergence()
-
-            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
-                print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
-                      f'improvement is {self._rel_function_change:g}')
-
-            self._after_fit_iteration()
-
-
-        if (
-            ((self.current_iteration+1) % self.checkpoint_frequency != 0) and 
-            (self.checkpoint_frequency > 0)
-        ):
-            self.store_checkpoint()
-
-    def _update_convergence(self):
-        loss = self.loss
-        self._rel_function_change = (self.prev_loss - loss)/self.prev_loss
-        self.prev_loss = loss
-
-    def _update_parafac2_factors(self):
-        #print('Before projection update') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-        self._update_projection_matrices()
-
-        #print('Before ALS update') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-
-        self.cp_decomposer.set_target(self.projected_X)
-        for _ in range(self.cp_updates_per_it):
-            self.cp_decomposer._update_als_factors()
-        self.decomposition.blueprint_B[...] *= self.cp_decomposer.weights
-        self.cp_decomposition.weights = self.cp_decomposition.weights*0 + 1
-        #print('After iteration') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-        # from pdb import set_trace; set_trace()
-
-    @property
-    def loss(self):
-        loss = self.SSE
-        if self.ridge_penalties is not None:
-            factor_matrices = [self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C]
-            for factor, penalty in zip(factor_matrices, self.ridge_penalties):
-                loss += penalty*np.linalg.norm(factor)**2
-        return loss
+from abc import abstractmethod
+from pathlib import Path
+import warnings
+import numpy as np
+from .base_decomposer import BaseDecomposer
+from . import decompositions
+from . import cp
+from ..utils import normalize_factors, get_pca_loadings
+from .. import base
+
+
+__all__ = ['Parafac2_ALS']
+
+
+class BaseParafac2(BaseDecomposer):
+    r"""Base class for Parafac2 decomposer objects
+
+    Arguments:
+    ----------
+    rank: int
+        Number of components 
+    max_its: int (optional, default=1000)
+        Maximum number of iterations for fitting the model. 
+        Can be overwritten by the ``fit`` method.
+    convergence_tol: float (optional, default=1e-6)
+        Minimum relative function change between two consequetive
+        iterations for the model to continue fitting. Computed as
+        
+        .. math::
+
+            \frac{L(X_i) - L(X_{i+1})}{L(X_{i+1})},
+        
+        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
+        is the decomposition at iteration :math:`i`.
+    init: str (optional, default = 'random')
+        Initialisation scheme for the decomposer (case insensitive). Options:
+    
+          * Random: Initiate the decomposition as a random Parafac2 tensor
+          * SVD: Use the SVD to find the factor matrices
+          * CP: Run 20 CP iterations and use that decomposition as initial
+          Parafac2 tensor (QR on the evolving mode to split into projection
+          and blueprint matrices)
+          * from_checkpoint: Load the last iteration in the specified
+          checkpoint file (alternatively, just the path to the decomposition file)
+          * Precomputed: Use already existing Parafac2 tensor to initialise
+          the decomposition. 
+
+    logger: list(Logger) (optional, default=None)
+        List of loggers, each logger should implement a ``log`` method
+        that takes a decomposer as input and a ``write_to_hdf5_group``
+        method that stores the log in a hdf5 group. See 
+        ``tenkit.logging.BaseLogger`` for interface.
+    checkpoint_frequency: int (optional, default=None)
+        How often the decomposer should store the decomposition and
+        logs to disk. If None or negative, will only
+        checkpoint the last iteration. 
+    checkpoint_path: str or Path (optional, default=None)
+        Where to store the log HDF5 file. If None, then the checkpoints
+        and logs are not stored to disk.
+    print_frequency: int (optional, default=None)
+        How often convergence information should be printed in the terminal.
+        None and negative values leads to no printing.
+    """
+    DecompositionType = decompositions.Parafac2Tensor
+    def __init__(self, 
+        rank, 
+        max_its=1000, 
+        convergence_tol=1e-6, 
+        init='random',
+        loggers=None,
+        checkpoint_frequency=None,
+        checkpoint_path=None,
+        print_frequency=10,
+    ):
+        super().__init__(
+            max_its=max_its,
+            convergence_tol=convergence_tol,
+            loggers=loggers,
+            checkpoint_frequency=checkpoint_frequency,
+            checkpoint_path=checkpoint_path,
+            print_frequency=print_frequency,
+        )
+
+        self.rank = rank
+        self.init = init
+
+    def set_target(self, X):
+        if not isinstance(X, list):
+            self.target_tensor = X
+            X = X.transpose(2, 0, 1)
+        
+        self.X = X
+        self.X_shape = [len(X[0]), [Xk.shape[1] for Xk in X], len(X)]    # len(A), len(Bk), len(C)
+        self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))
+        self.num_X_elements = sum([np.prod(s) for s in self.X_shape])
+
+    def init_random(self):
+        """Random initialisation of the factor matrices
+        """
+        self.decomposition = self.DecompositionType.random_init(self.X_shape, rank=self.rank)
+
+    def init_svd(self):
+        """SVD initalisation
+        """
+        # TODO: This does not work for irregular tensors
+        K = self.X_shape[2]
+        J = self.X_shape[1]
+        Y = np.zeros([J, J])
+
+        for k in range(K):
+            Y += self.X[k].T @ self.X[k]
+
+        A = get_pca_loadings(Y, self.rank)
+        blueprint_B = np.identity(self.rank)
+        C = np.ones((K, self.rank))
+
+        P = [np.eye(J, self.rank) for k in range(K)]
+        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
+
+        self._update_projection_matrices()
+    
+    def init_cp(self):
+        """CP initialisation. Input must be a tensor.
+        """
+        X = np.asarray(self.X)
+        cp_als = cp.CP_ALS(self.rank, 20)
+        cp_als.fit(X)
+        C, A, B = cp_als.factor_matrices
+        P, blueprint_B = np.linalg.qr(B)
+        P = [P for _ in range(len(self.X))]
+        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
+
+    def init_components(self, initial_decomposition=None):
+        if self.init.lower() == 'svd':
+            self.init_svd()
+        elif self.init.lower() == 'random':
+            self.init_random()
+        elif self.init.lower() == 'cp':
+            self.init_cp()
+        elif self.init.lower() == 'from_checkpoint':
+            self.load_checkpoint(initial_decomposition)
+        elif self.init.lower() == 'precomputed':
+            self._check_valid_components(initial_decomposition)
+            self.decomposition = initial_decomposition
+        elif Path(self.init).is_file():
+            self.load_checkpoint(self.init)
+        else:
+            # TODO: better message
+            raise ValueError('Init method must be either `random`, `svd`, `from_checkpoint` or `precomputed`.')
+
+    def _check_valid_components(self, decomposition):
+        for i, factor_matrix, factor_name in zip([0, 2], [decomposition.A, decomposition.C], ['A', 'C']):
+            if factor_matrix.shape[0] != self.X_shape[i]:
+                raise ValueError(
+                    f"The length of factor matrix {factor_name} ({factor_matrix.shape[0]}"
+                    f"is not the same as the length of X's dimension {i} ({self.X_shape[i]})"
+                )
+            if factor_matrix.shape[1] != self.rank:
+                raise ValueError(
+                    f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
+                )
+        
+        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
+            if B.shape[0] != X_slice.shape[1]:
+                raise ValueError(
+                    f"The number of rows of factor matrix B_{k} ({B.shape[0]}"
+                    f"is not the same as the number of columns of X_{k} ({X_slice.shape[1]})"
+                )
+
+            if B.shape[1] != self.rank:
+                raise ValueError(
+                    f"The number of columns of B_{k} ({B.shape[1]}) does not agree with the models rank ({self.rank})"
+                )
+
+    @abstractmethod
+    def _fit(self):
+        pass
+
+    def fit(self, X, y=None, max_its=None, initial_decomposition=None):
+        """Fit a parafac2 model. Precomputed components must be specified if init method is 'precomputed'
+
+        Arguments:
+        ----------
+        X : np.ndarray
+            The tensor or list of tensor slices to fit a PARAFAC2 model to. 
+            The list indices (or first mode) correspond to the C-mode in
+            the following equation
+
+            .. math::
+
+                X_k = A diag(c_k) B_k^T
+            
+            This will be changed in a later version so that the first mode
+            is the evolving mode.
+        y : None
+            Ignored, included to follow sklearn standards.
+        max_its : int (optional)
+            If set, then this will override the class's max_its.
+        initial_decomposition : tenkit.decomposition.decompositions.Parafac2Tensor or str
+            The initial KruskalTensor (init=precomputed) to use or the path of the 
+            logfile to load (init=from_file).
+        """
+
+        self._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        self._fit()
+
+    def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
+        self.fit(X, y=y, max_its=max_its, initial_decomposition=initial_decomposition)
+        return self.decomposition
+
+    @property
+    def loss(self):
+        return self.SSE
+
+    def _fit(self):
+        return 1 - self.SSE/(self.X_norm**2)
+
+    @property
+    def SSE(self):
+        SSE = 0
+        for X_k, reconstructed_X_k, in zip(self.X, self.reconstructed_X):
+            SSE += np.sum((X_k - reconstructed_X_k)**2)
+        return SSE
+
+    @property
+    def MSE(self):
+        return self.SSE/self.decomposition.num_elements
+        
+    @property
+    def reconstructed_X(self):
+        return self.decomposition.construct_slices()
+    
+    @property
+    def projected_X(self):
+        I = self.decomposition.A.shape[0]
+        K = self.decomposition.C.shape[0]
+        projected_X = np.empty((I, self.rank, K))
+
+        for k, projection_matrix in enumerate(self.decomposition.projection_matrices):
+            projected_X[..., k] = self.X[k]@projection_matrix
+        return projected_X
+
+    # TODO: Change name of this function
+    def _update_projection_matrices(self):
+        K = self.X_shape[2]
+
+        for k in range(K):
+            A = self.decomposition.A
+            C = self.decomposition.C
+            blueprint_B = self.decomposition.blueprint_B
+
+            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(
+                (C[k]*A)@blueprint_B.T,
+                self.X[k]
+            ).T
+
+            # Should_keep = diag([1, 1, ..., 1, 0, 0, ..., 0]) -> the zeros correspond to small singular values
+            # Following Rasmus Bro's PARAFAC2 MATLAB script, which sets P_k = Q_k(Q_k'Q_k)^(-0.5) (line 524)
+            #      Where the power is done by truncating very small singular values (for numerical stability)
+
+
+class Parafac2_ALS(BaseParafac2):
+    r"""Decomposer for Parafac2 with ALS optimization
+
+    Arguments:
+    ----------
+    rank: int
+        Number of components 
+    max_its: int (optional, default=1000)
+        Maximum number of iterations for fitting the model. 
+        Can be overwritten by the ``fit`` method.
+    convergence_tol: float (optional, default=1e-6)
+        Minimum relative function change between two consequetive
+        iterations for the model to continue fitting. Computed as
+        
+        .. math::
+
+            \frac{L(X_i) - L(X_{i+1}) }{L(X_{i+1})},
+        
+        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
+        is the decomposition at iteration :math:`i`.
+    init: str (optional, default = 'random')
+        Initialisation scheme for the decomposer (case insensitive). Options:
+    
+          * Random: Initiate the decomposition as a random Parafac2 tensor
+          * SVD: Use the SVD to find the factor matrices
+          * CP: Run 20 CP iterations and use that decomposition as initial
+          Parafac2 tensor (QR on the evolving mode to split into projection
+          and blueprint matrices)
+          * from_checkpoint: Load the last iteration in the specified
+          checkpoint file (alternatively, just the path to the decomposition file)
+          * Precomputed: Use already existing Parafac2 tensor to initialise
+          the decomposition. 
+    logger: list(Logger) (optional, default=None)
+        List of loggers, each logger should implement a ``log`` method
+        that takes a decomposer as input and a ``write_to_hdf5_group``
+        method that stores the log in a hdf5 group. See 
+        ``tenkit.logging.BaseLogger`` for interface.
+    checkpoint_frequency: int (optional, default=None)
+        How often the decomposer should store the decomposition and
+        logs to disk. If None or negative, will only
+        checkpoint the last iteration. 
+    checkpoint_path: str or Path (optional, default=None)
+        Where to store the log HDF5 file. If None, then the checkpoints
+        and logs are not stored to disk.
+    print_frequency: int (optional, default=None)
+        How often convergence information should be printed in the terminal.
+        None and negative values leads to no printing.
+    cp_updates_per_it: int (optional, default=5)
+        Number of CP iterations to run between each projection matrix update.
+    non_negativity_constraints: list(bool) (optional, default=None)
+        If nth element in the list is True, the nth mode is constrained to be
+        non-negative. If None, no modes are constrained.
+        Note: The evolving mode cannot be constrained. 
+    ridge_penalties: list(float) (optional, default=None)
+        Regularisation parameters. The loss is regularised such that
+
+        .. math::
+
+            L_{reg} = L + \sum_i \lambda_i ||U_i||_F^2
+
+        Where :math:`L_{reg}` is the regularised loss, :math:`L` is the unregularised
+        loss, :math:`\lambda_i` is the ith element in ``ridge_penalites`` and :math:`U_i`
+        is the ith factor matrix (or blueprint factor matrix for the evolving mode). 
+        If None, no modes are regularised.
+    orthonormality_constraints: list(bool) (optional, default=None)
+        If nth element in the list is True, the nth mode is constrained to be
+        orthonormal. If None, no modes are constrained. Note: all modes should not be
+        orhtonormal and the evolving mode cannot be constrained. 
+    """
+    def __init__(
+        self,
+        rank,
+        max_its=1000, 
+        convergence_tol=1e-6, 
+        init='random',
+        loggers=None,
+        checkpoint_frequency=None,
+        checkpoint_path=None,
+        print_frequency=10,
+        cp_updates_per_it=5,
+        non_negativity_constraints=None,
+        ridge_penalties=None,
+        orthonormality_constraints=None,
+    ):
+        super().__init__(
+            rank,
+            max_its=max_its,
+            convergence_tol=convergence_tol,
+            init=init,
+            loggers=loggers,
+            checkpoint_frequency=checkpoint_frequency,
+            checkpoint_path=checkpoint_path,
+            print_frequency=print_frequency,
+        )
+        self.non_negativity_constraints = non_negativity_constraints
+        if self.non_negativity_constraints is None:
+            self.non_negativity_constraints = [False, False, False]
+        if self.non_negativity_constraints[1]:
+            warnings.warn(
+                "Non negativity constraints on the evolving (second) mode will only"
+                " be imposed on the blueprint matrix, not the evolving components.",
+                RuntimeWarning
+            )
+
+        self.cp_updates_per_it = cp_updates_per_it
+        self.ridge_penalties = ridge_penalties
+        self.orthonormality_constraints = orthonormality_constraints
+
+    def _init_fit(self, X, max_its, initial_decomposition):
+        super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        self.prev_loss = self.loss
+        self._rel_function_change = np.inf
+
+    def _prepare_cp_decomposer(self):
+        self.cp_decomposition = decompositions.KruskalTensor([self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C])
+        self.cp_decomposer = cp.CP_ALS(
+            self.rank,
+            max_its=np.inf, 
+            convergence_tol=0,
+            print_frequency=-1, 
+            non_negativity_constraints=self.non_negativity_constraints,
+            ridge_penalties=self.ridge_penalties,
+            orthonormality_constraints=self.orthonormality_constraints,
+            init='precomputed'
+        )
+        self.cp_decomposer._init_fit(X=self.projected_X, max_its=np.inf, initial_decomposition=self.cp_decomposition)
+
+    def _fit(self):
+
+        self._prepare_cp_decomposer()
+        for it in range(self.max_its - self.current_iteration):
+            if abs(self._rel_function_change) < self.convergence_tol:
+                break
+
+            self._update_parafac2_factors()
+            self._update_convergence()
+
+            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
+                print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
+                      f'improvement is {self._rel_function_change:g}')
+
+            self._after_fit_iteration()
+
+
+        if (
+            ((self.current_iteration+1) % self.checkpoint_frequency != 0) and 
+            (self.checkpoint_frequency > 0)
+        ):
+            self.store_checkpoint()
+
+    def _update_convergence(self):
+        loss = self.loss
+        self._rel_function_change = (self.prev_loss - loss)/self.prev_loss
+        self.prev_loss = loss
+
+    def _update_parafac2_factors(self):
+        #print('Before projection update') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+        self._update_projection_matrices()
+
+        #print('Before ALS update') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+
+        self.cp_decomposer.set_target(self.projected_X)
+        for _ in range(self.cp_updates_per_it):
+            self.cp_decomposer._update_als_factors()
+        self.decomposition.blueprint_B[...] *= self.cp_decomposer.weights
+        self.cp_decomposition.weights = self.cp_decomposition.weights*0 + 1
+        #print('After iteration') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+        # from pdb import set_trace; set_trace()
+
+    @property
+    def loss(self):
+        loss = self.SSE
+        if self.ridge_penalties is not None:
+            factor_matrices = [self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C]
+            for factor, penalty in zip(factor_matrices, self.ridge_penalties):
+                loss += penalty*np.linalg.norm(factor)**2
+        return loss
-- 
2.43.0


From 9904797f358caec3ad8df4a0ef9636e51584209b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:32 +0000
Subject: [PATCH 17/45] fix: the CP initialisation of PARAFAC2 shared one
 projection matrix between all slices

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 97484f4..795e398 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -127,7 +127,7 @@ class BaseParafac2(BaseDecomposer):
         cp_als.fit(X)
         C, A, B = cp_als.factor_matrices
         P, blueprint_B = np.linalg.qr(B)
-        P = [P for _ in range(len(self.X))]
+        P = [P.copy() for _ in range(len(self.X))]  # The matrices are updated in place, so they cannot be shared
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
     def init_components(self, initial_decomposition=None):
-- 
2.43.0


From bebdfd0cdf6a338a94b3fe7f9e8d223a9d5abe68 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:32 +0000
Subject: [PATCH 18/45] fix: the SVD initialisation of PARAFAC2 always failed

---
 src/tenkit/decomposition/parafac2.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 795e398..6404c5d 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -102,19 +102,17 @@ class BaseParafac2(BaseDecomposer):
     def init_svd(self):
         """SVD initalisation
         """
-        # TODO: This does not work for irregular tensors
-        K = self.X_shape[2]
-        J = self.X_shape[1]
-        Y = np.zeros([J, J])
+        I, J, K = self.X_shape
+        Y = np.zeros([I, I])
 
         for k in range(K):
-            Y += self.X[k].T @ self.X[k]
+            Y += self.X[k] @ self.X[k].T
 
         A = get_pca_loadings(Y, self.rank)
         blueprint_B = np.identity(self.rank)
         C = np.ones((K, self.rank))
 
-        P = [np.eye(J, self.rank) for k in range(K)]
+        P = [np.eye(J[k], self.rank) for k in range(K)]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
         self._update_projection_matrices()
-- 
2.43.0


From 9c05972f0d5e159469e8cfb344d55329df552e7a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:45 +0000
Subject: [PATCH 19/45] fix: checkpoint the last iteration and resume after the
 stored iteration

Checkpoints are named after the last completed iteration (the final one was
named after the next), resuming continues with the iteration after it, and
the last iteration is stored as documented (not twice, and also without a
frequency). A fit whose limit was reached already raised UnboundLocalError.
---
 src/tenkit/decomposition/base_decomposer.py | 30 +++++++++++++++------
 src/tenkit/decomposition/cmtf.py            |  5 ++--
 src/tenkit/decomposition/cp.py              |  6 ++---
 src/tenkit/decomposition/parafac2.py        | 10 +++----
 4 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 56fbe82..5218ac6 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -176,15 +176,18 @@ class BaseDecomposer(ABC):
         self._fit()
     
     def store_checkpoint(self):
+        """Store the decomposition after the last completed iteration and the logs.
+        """
+        it = self.current_iteration - 1
         with h5py.File(self.checkpoint_path, 'a') as h5:
             if 'checkpoint_its' not in h5.attrs:
-                h5.attrs['checkpoint_its'] = [self.current_iteration]
+                h5.attrs['checkpoint_its'] = [it]
             else:
-                h5.attrs['checkpoint_its'] = [*h5.attrs['checkpoint_its'], self.current_iteration]
+                h5.attrs['checkpoint_its'] = [*h5.attrs['checkpoint_its'], it]
 
-            h5.attrs['final_iteration'] = self.current_iteration
+            h5.attrs['final_iteration'] = it
             h5.attrs['decomposition_type'] = type(self).__name__
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
+            checkpoint_group = h5.create_group(f'checkpoint_{it:05d}')
             self.decomposition.store_in_hdf5_group(checkpoint_group)
 
             for logger in self.loggers:
@@ -206,7 +209,7 @@ class BaseDecomposer(ABC):
 
             if load_it is None:
                 load_it = h5.attrs['final_iteration']
-            self.current_iteration = load_it
+            self.current_iteration = int(load_it) + 1  # The checkpoint is stored after iteration load_it
 
             group_name = f'checkpoint_{load_it:05d}'
             if group_name not in h5:
@@ -222,8 +225,19 @@ class BaseDecomposer(ABC):
         for logger in self.loggers:
             logger.log(self)
 
-        it = self.current_iteration
-        if ((it+1) % self.checkpoint_frequency == 0) and (self.checkpoint_frequency > 0):
+        self.current_iteration += 1
+        if self._is_checkpoint_due():
             self.store_checkpoint()
 
-        self.current_iteration += 1
\ No newline at end of file
+    def _is_checkpoint_due(self):
+        """Whether the frequency asks for a checkpoint after the last completed iteration."""
+        if self.checkpoint_path is None or self.checkpoint_frequency <= 0:
+            return False
+        return self.current_iteration % self.checkpoint_frequency == 0
+
+    def _after_fit(self, first_iteration):
+        """Store the last iteration, unless no iteration was performed or it is stored already."""
+        if self.checkpoint_path is None or self.current_iteration == first_iteration:
+            return
+        if not self._is_checkpoint_due():
+            self.store_checkpoint()
diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index c74b4ba..7d16ae2 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -10,9 +10,10 @@ from .. import base
 class CMTF_ALS(CP_ALS): 
     def store_checkpoint(self):
         #TODO: store the matrices as well
+        it = self.current_iteration - 1
         with h5py.File(self.checkpoint_path, 'a') as h5:
-            h5.attrs['final_iteration'] = self.current_iteration
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
+            h5.attrs['final_iteration'] = it
+            checkpoint_group = h5.create_group(f'checkpoint_{it:05d}')
             self.decomposition.store_in_hdf5_group(checkpoint_group)
             for logger in self.loggers:
                 logger.write_to_hdf5_group(h5)
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 029962e..3aa9f19 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -427,7 +427,8 @@ class CP_ALS(BaseCP):
     def _fit(self):
         """Fit a CP model with Alternating Least Squares.
         """
-        for it in range(self.max_its - self.current_iteration):
+        first_iteration = self.current_iteration
+        for _ in range(self.max_its - self.current_iteration):
             rel_loss = self.SSE/self.X_norm**2
             if (
                 abs(self._rel_function_change) < self.convergence_tol 
@@ -442,8 +443,7 @@ class CP_ALS(BaseCP):
 
             self._after_fit_iteration()
 
-        if ((it+1) % self.checkpoint_frequency != 0) and (self.checkpoint_frequency > 0):
-            self.store_checkpoint()
+        self._after_fit(first_iteration)
 
     def init_random(self):
         super().init_random()
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 6404c5d..45c0810 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -387,7 +387,8 @@ class Parafac2_ALS(BaseParafac2):
     def _fit(self):
 
         self._prepare_cp_decomposer()
-        for it in range(self.max_its - self.current_iteration):
+        first_iteration = self.current_iteration
+        for _ in range(self.max_its - self.current_iteration):
             if abs(self._rel_function_change) < self.convergence_tol:
                 break
 
@@ -400,12 +401,7 @@ class Parafac2_ALS(BaseParafac2):
 
             self._after_fit_iteration()
 
-
-        if (
-            ((self.current_iteration+1) % self.checkpoint_frequency != 0) and 
-            (self.checkpoint_frequency > 0)
-        ):
-            self.store_checkpoint()
+        self._after_fit(first_iteration)
 
     def _update_convergence(self):
         loss = self.loss
-- 
2.43.0


From 7777979bcb6dccb30d40477846f4d05c0a2ba7fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:45 +0000
Subject: [PATCH 20/45] fix: a failed checkpoint write left the file referring
 to an incomplete checkpoint

---
 src/tenkit/decomposition/base_decomposer.py | 11 +++++++++--
 src/tenkit/decomposition/cmtf.py            | 12 +-----------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 5218ac6..8ef0daa 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -180,6 +180,15 @@ class BaseDecomposer(ABC):
         """
         it = self.current_iteration - 1
         with h5py.File(self.checkpoint_path, 'a') as h5:
+            # Store the decomposition first, the file should only refer to complete checkpoints
+            checkpoint_name = f'checkpoint_{it:05d}'
+            checkpoint_group = h5.create_group(checkpoint_name)
+            try:
+                self.decomposition.store_in_hdf5_group(checkpoint_group)
+            except BaseException:
+                del h5[checkpoint_name]
+                raise
+
             if 'checkpoint_its' not in h5.attrs:
                 h5.attrs['checkpoint_its'] = [it]
             else:
@@ -187,8 +196,6 @@ class BaseDecomposer(ABC):
 
             h5.attrs['final_iteration'] = it
             h5.attrs['decomposition_type'] = type(self).__name__
-            checkpoint_group = h5.create_group(f'checkpoint_{it:05d}')
-            self.decomposition.store_in_hdf5_group(checkpoint_group)
 
             for logger in self.loggers:
                 logger.write_to_hdf5_group(h5)
diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 7d16ae2..fda113a 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -1,4 +1,3 @@
-import h5py
 import numpy as np
 from .cp import CP_ALS
 
@@ -8,16 +7,7 @@ from .. import base
 
 
 class CMTF_ALS(CP_ALS): 
-    def store_checkpoint(self):
-        #TODO: store the matrices as well
-        it = self.current_iteration - 1
-        with h5py.File(self.checkpoint_path, 'a') as h5:
-            h5.attrs['final_iteration'] = it
-            checkpoint_group = h5.create_group(f'checkpoint_{it:05d}')
-            self.decomposition.store_in_hdf5_group(checkpoint_group)
-            for logger in self.loggers:
-                logger.write_to_hdf5_group(h5)
-
+    #TODO: store the matrices in the checkpoints as well
 
     @property
     def coupled_factor_matrices(self):
-- 
2.43.0


From 0c45cb40a3ffc1375481fbae24788a08b35fe61b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 21/45] fix: non-negative CMTF models called a function that
 does not exist

---
 src/tenkit/decomposition/cmtf.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index fda113a..a7edafb 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -137,10 +137,7 @@ class CMTF_ALS(CP_ALS):
     def _update_als_factors(self):
         num_modes = len(self.X.shape) # TODO: Should this be cashed?
         for mode in range(num_modes):
-            if self.non_negativity_constraints[mode]:
-                self._update_als_factor_non_negative(mode) 
-            else:
-                self._update_als_factor(mode)
+            self._update_als_factor(mode)
         self._update_uncoupled_matrix_factors()
 
     def _has_normal_equations(self, mode):
-- 
2.43.0


From 41c82c13697dc872123c46cec7d3f6c5050bce5b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 22/45] fix: count the entries of the coupled matrices in the
 mean squared error of CMTF models

---
 src/tenkit/decomposition/cmtf.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index a7edafb..2bc71cf 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -36,9 +36,7 @@ class CMTF_ALS(CP_ALS):
 
     @property
     def MSE(self):
-        #raise NotImplementedError('Not implemented') 
-        # TODO: fix this
-        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_factor_matrices)
+        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_matrices)
         return self.SSE/num_elements
 
     @property
-- 
2.43.0


From 6502d1ab81805e420e5af81c78934bf2e486ab8f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 23/45] fix: only the first of several matrices coupled to one
 mode was fitted

---
 src/tenkit/decomposition/cmtf.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 2bc71cf..37b12ca 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -144,25 +144,23 @@ class CMTF_ALS(CP_ALS):
     def _get_als_lhs(self, mode):
         if mode in self.mode_to_cm_idx:
             khatri_rao_product= base.khatri_rao(*self.factor_matrices, skip=mode)
-            V = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]][0]
-            return np.concatenate([khatri_rao_product, V], axis=0).T
+            V = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]
+            return np.concatenate([khatri_rao_product, *V], axis=0).T
         else:
             return super()._get_als_lhs(mode)
     
     def _get_als_rhs(self, mode):
         if mode in self.mode_to_cm_idx:
             unfolded_X = base.unfold(self.X, mode)
-            coupled_Y = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]][0]
+            coupled_Y = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]
 
-            return np.concatenate([unfolded_X, coupled_Y], axis=1)
+            return np.concatenate([unfolded_X, *coupled_Y], axis=1)
         else:
             return super()._get_als_rhs(mode)
 
 
     def _update_uncoupled_matrix_factors(self):
-        for mode, cm_idx in self.mode_to_cm_idx.items():
-            cm_idx = self.mode_to_cm_idx[mode][0]
-            
+        for cm_idx, mode in enumerate(self.coupling_modes):
             lhs = self.factor_matrices[mode].T
             rhs = self.coupled_matrices[cm_idx].T
 
-- 
2.43.0


From ca32f81feed2266ef86c7db6fec402810153dde6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 24/45] fix: CMTF updates disregarded the component weights

Continued fits and fits from precomputed components start with weights that
are not one.
---
 src/tenkit/decomposition/cmtf.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 37b12ca..a7e9391 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -71,8 +71,20 @@ class CMTF_ALS(CP_ALS):
         self.decomposition.normalize_components()
 
     def _fit(self):
+        self._absorb_weights()
         super()._fit()
         self._normalize_components()
+
+    def _absorb_weights(self):
+        """Move the weights, which the updates disregard, into the first factor matrix."""
+        # A zero weight comes from a component that is zero without its weight as well
+        weights = np.where(self.weights == 0, 1, self.weights)
+        for uncoupled_matrix, coupling_mode in zip(self.uncoupled_factor_matrices, self.coupling_modes):
+            if coupling_mode == 0:
+                uncoupled_matrix[...] = uncoupled_matrix/weights
+
+        self.factor_matrices[0][...] *= weights
+        self.decomposition.reset_weights()
     
     def _normalize_components(self):
         for uncoupled_matrix, coupling_mode in zip(self.uncoupled_factor_matrices, self.coupling_modes):
-- 
2.43.0


From 46f80afdd9cc4a5c8b304c0f9f5692f60c5505ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:57 +0000
Subject: [PATCH 25/45] fix: starting points with another number of modes or
 slices than the data were accepted

---
 src/tenkit/decomposition/cp.py       | 6 ++++++
 src/tenkit/decomposition/parafac2.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 3aa9f19..3e57dae 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -122,6 +122,12 @@ class BaseCP(BaseDecomposer):
     def _check_valid_components(self, decomposition):
         """Check if provided factor matrices have correct shape.
         """
+        if len(decomposition.factor_matrices) != len(self.X.shape):
+            raise ValueError(
+                f"The number of factor matrices ({len(decomposition.factor_matrices)}) is not the same as"
+                f" the number of modes of X ({len(self.X.shape)})."
+            )
+
         for i, factor_matrix in enumerate(decomposition.factor_matrices):
             len_, rank = factor_matrix.shape
             if rank != self.rank:
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 45c0810..1b80934 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -158,6 +158,12 @@ class BaseParafac2(BaseDecomposer):
                     f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
                 )
         
+        if len(decomposition.projection_matrices) != len(self.X):
+            raise ValueError(
+                f"The number of projection matrices ({len(decomposition.projection_matrices)})"
+                f" is not the same as the number of slices of X ({len(self.X)})"
+            )
+
         for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
             if B.shape[0] != X_slice.shape[1]:
                 raise ValueError(
-- 
2.43.0


From cd6953b1616566edaa52f397fa3b2da124d36c1d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:31 +0000
Subject: [PATCH 26/45] fix: ALS updates truncated components that are much
 smaller than the others

A component that a constraint reduces to almost zero in one mode grows in
the others. The truncation relative to the largest component then removed
all other components, which increased the loss.
---
 src/tenkit/base.py             | 21 +++++++++++++++------
 src/tenkit/decomposition/cp.py | 13 +++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 51aff82..dfc19d0 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -62,15 +62,19 @@ def add_rightsolve_ridge(rightsolve, ridge_penalty):
     return ridge_rightsolve
 
 
-def normal_equations_rightsolve(rightsolve):
-    """Make a (constrained or regularised) rightsolve take the normal equations.
+def normal_equations_rightsolve(rightsolve, ridge_penalty=0, scalable_columns=True):
+    """Make a rightsolve take the normal equations instead of the least squares problem.
 
     The returned function takes ``A@A.T`` and ``B@A.T`` and solves X*A = B wrt X.
+    If the columns of X can be scaled by positive numbers without violating its
+    constraints, then they are, so that components of different sizes are
+    solved for equally accurately.
     """
     def normal_rightsolve(AAt, BAt):
-        # Find A_ and B_ with A_@A_.T = AAt and B_@A_.T = BAt. Then, the squared
-        # errors of X*A_ = B_ and X*A = B have the same minimisers. The rows of A
-        # are scaled to unit norm first, so small components are not truncated.
+        # Find A_ and B_ with diag(norms)@A_@A_.T@diag(norms) = AAt and
+        # B_@A_.T@diag(norms) = BAt. Then, the squared errors of
+        # X*diag(norms)*A_ = B_ and X*A = B have the same minimisers.
+        AAt = AAt + ridge_penalty*np.identity(len(AAt))
         norms = np.sqrt(np.diag(AAt))
         norms = np.where(norms == 0, 1, norms)
         S, U = np.linalg.eigh(AAt / np.outer(norms, norms))
@@ -78,7 +82,12 @@ def normal_equations_rightsolve(rightsolve):
         sqrt_S = np.sqrt(np.where(should_keep, S, 0))
         inv_sqrt_S = np.where(should_keep, 1/np.where(should_keep, sqrt_S, 1), 0)
 
-        return rightsolve(norms[:, np.newaxis]*U*sqrt_S, ((BAt/norms) @ U)*inv_sqrt_S)
+        A_ = U*sqrt_S
+        A_[np.diag(AAt) == 0] = 0  # U may contain rounding errors
+        B_ = ((BAt/norms) @ U)*inv_sqrt_S
+        if scalable_columns:
+            return rightsolve(A_, B_)/norms
+        return rightsolve(norms[:, np.newaxis]*A_, B_)
     return normal_rightsolve
 
 
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 3e57dae..192c005 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -392,15 +392,16 @@ class CP_ALS(BaseCP):
 
             rightsolve = base.orthogonal_rightsolve
 
+        ridge_penalty = 0
         if self.ridge_penalties is not None:
             ridge_penalty = self.ridge_penalties[mode]
-            # fm_shape = np.prod(self.factor_matrices[mode].shape)
-            rightsolve = base.add_rightsolve_ridge(rightsolve, ridge_penalty)#/fm_shape)
-
-        # Constrained and regularised solutions depend on the least squares problem, not only on its normal equations
-        if rightsolve is not base.rightsolve and self._has_normal_equations(mode):
-            rightsolve = base.normal_equations_rightsolve(rightsolve)
 
+        if self._has_normal_equations(mode):
+            return base.normal_equations_rightsolve(
+                rightsolve, ridge_penalty, scalable_columns=not self.orthonormality_constraints[mode]
+            )
+        if ridge_penalty != 0:
+            rightsolve = base.add_rightsolve_ridge(rightsolve, ridge_penalty)
         return rightsolve
 
     def _has_normal_equations(self, mode):
-- 
2.43.0


From 403bedf7ddbdcfc129a6f279edcca1be1a8b6034 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 27/45] fix: rightsolve inverted the rounding errors of
 computed rank-deficient systems

---
 src/tenkit/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index dfc19d0..6af9f69 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -8,7 +8,8 @@ def rightsolve(A, B):
     """Solve the equation X*A = B wrt X.
     """
     U, S, Vh = np.linalg.svd(A, full_matrices=False)
-    should_keep = S > max(A.shape) * np.max(S) * np.finfo(S.dtype).eps
+    # The factor 10 leaves a margin for A being the result of computations itself
+    should_keep = S > 10 * max(A.shape) * np.max(S) * np.finfo(S.dtype).eps
     S[should_keep] = 1/S[should_keep]
     S[~should_keep] = 0
 
-- 
2.43.0


From 3b4a315554b9bf9d13edde4fc414f9ec65b0b93a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:36 +0000
Subject: [PATCH 28/45] fix: orthonormal factors and projections lost columns
 when the components nearly vanished

---
 src/tenkit/base.py                   | 4 +---
 src/tenkit/decomposition/parafac2.py | 4 ----
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 6af9f69..de68a8b 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -40,10 +40,8 @@ def orthogonal_solve(A, B):
     """Solve the equation AX = B wrt X with orthogonality on X
     """
     U, S, Vh = np.linalg.svd(B.T@A, full_matrices=False)
-    S_tol = max(U.shape) * S[0] * (1e-16)
-    should_keep = (S > S_tol).astype(float)
 
-    return (Vh.T * should_keep)@ U.T
+    return Vh.T @ U.T
 
 
 def add_rightsolve_ridge(rightsolve, ridge_penalty):
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 1b80934..55ffe82 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -258,10 +258,6 @@ class BaseParafac2(BaseDecomposer):
                 self.X[k]
             ).T
 
-            # Should_keep = diag([1, 1, ..., 1, 0, 0, ..., 0]) -> the zeros correspond to small singular values
-            # Following Rasmus Bro's PARAFAC2 MATLAB script, which sets P_k = Q_k(Q_k'Q_k)^(-0.5) (line 524)
-            #      Where the power is done by truncating very small singular values (for numerical stability)
-
 
 class Parafac2_ALS(BaseParafac2):
     r"""Decomposer for Parafac2 with ALS optimization
-- 
2.43.0


From 45c02463476fc98ac401867f2149b7733a983cb6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 29/45] fix: sign scores of zero gave signs of zero and
 unbalanced sign flips

---
 src/tenkit/decomposition/decompositions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index b187ffc..61ef86a 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -241,11 +241,12 @@ class KruskalTensor(BaseDecomposedTensor):
                 single_mode_sign_scores[rank] for single_mode_sign_scores in sign_scores
             ]
 
-            for factor_num, factor_sign_score in enumerate(single_rank_sign_scores):
-                signs[factor_num][rank] = np.sign(factor_sign_score)
+            # A sign score of zero does not prefer any sign
+            single_rank_signs = np.where(np.asarray(single_rank_sign_scores) < 0, -1, 1)
+            for factor_num, factor_sign in enumerate(single_rank_signs):
+                signs[factor_num][rank] = factor_sign
 
             # Find the mode that should not be flipped
-            single_rank_signs = np.sign(single_rank_sign_scores)
             if np.prod(single_rank_signs) == -1:
                 wrongly_flipped = np.argmin(np.abs(single_rank_sign_scores))
                 signs[wrongly_flipped][rank] *= -1
-- 
2.43.0


From 2d1df0a0d8d56c124b1c0b815b622269e37166f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 30/45] fix: normalising integer factor matrices truncated them

---
 src/tenkit/decomposition/decompositions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 61ef86a..b37eccb 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -157,6 +157,8 @@ class KruskalTensor(BaseDecomposedTensor):
             component norms.
         """
         for i, factor_matrix in enumerate(self.factor_matrices):
+            if not np.issubdtype(factor_matrix.dtype, np.inexact):
+                self.factor_matrices[i] = factor_matrix.astype(float)  # Integers cannot hold unit vectors
             norms = np.linalg.norm(factor_matrix, axis=0)
             self.factor_matrices[i][...] = factor_matrix/(norms[np.newaxis] + eps)
             if update_weights:
-- 
2.43.0


From afc7821be1b0fd3bfff09fcca57c866d18db4775 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 31/45] fix: flipping the signs of integer factor matrices
 raised an error

---
 src/tenkit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index d36b61f..11537b1 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -14,7 +14,7 @@ def flip_factors(factor_matrices):
             if s == 0:
                 sign[k] = _find_first_nonzero_sign(factor[:, k])
 
-        factor_matrices[i] *= sign
+        factor_matrices[i] = factor_matrices[i] * sign
         signs.append(sign)
     return factor_matrices, signs
 
-- 
2.43.0


From 8299906f9d49de4ab2694463f660fb9df4fb8095 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 32/45] fix: a CP model could not be fitted to data with
 another number of modes than before

---
 src/tenkit/decomposition/cmtf.py |  5 +----
 src/tenkit/decomposition/cp.py   | 23 ++++++++++++-----------
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index a7e9391..7a1581c 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -176,10 +176,7 @@ class CMTF_ALS(CP_ALS):
             lhs = self.factor_matrices[mode].T
             rhs = self.coupled_matrices[cm_idx].T
 
-            if self.non_negativity_constraints is None:
-                self.uncoupled_factor_matrices[cm_idx][...] = base.rightsolve(lhs, rhs)
-
-            if self.non_negativity_constraints[mode]:
+            if self._is_non_negative(mode):
                 new_fm = base.non_negative_rightsolve(lhs, rhs)
                 self.uncoupled_factor_matrices[cm_idx][...] = new_fm
             else:
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 192c005..25f47c3 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -352,13 +352,8 @@ class CP_ALS(BaseCP):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
         self.decomposition.factor_matrices[0][...] *= self.decomposition.weights
         self.decomposition.reset_weights()
-        if self.non_negativity_constraints is None:
-            self.non_negativity_constraints = [False]*len(self.factor_matrices)
-        if self.orthonormality_constraints is None:
-            self.orthonormality_constraints = [False]*len(self.factor_matrices)
-        for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
-            fm = self.decomposition.factor_matrices[mode]
-            if orthogonality:
+        for mode, fm in enumerate(self.factor_matrices):
+            if self._is_orthonormal(mode):
                 Q, R = np.linalg.qr(fm)
                 # In place, for the arrays may be shared. The signs of Q are chosen so that orthonormal factors are kept.
                 fm[...] = Q*np.where(np.diag(R) < 0, -1, 1)
@@ -381,13 +376,19 @@ class CP_ALS(BaseCP):
     def _get_als_rhs(self, mode):
         return base.matrix_khatri_rao_product(self.X, self.factor_matrices, mode)
 
+    def _is_non_negative(self, mode):
+        return self.non_negativity_constraints is not None and self.non_negativity_constraints[mode]
+
+    def _is_orthonormal(self, mode):
+        return self.orthonormality_constraints is not None and self.orthonormality_constraints[mode]
+
     def _get_rightsolve(self, mode):
         rightsolve = base.rightsolve
-        if self.non_negativity_constraints[mode]:
+        if self._is_non_negative(mode):
             rightsolve = base.non_negative_rightsolve
         
-        if self.orthonormality_constraints[mode]:
-            if self.non_negativity_constraints[mode]:
+        if self._is_orthonormal(mode):
+            if self._is_non_negative(mode):
                 raise ValueError('Cannot perform nonnegative orthogonal solve')
 
             rightsolve = base.orthogonal_rightsolve
@@ -398,7 +399,7 @@ class CP_ALS(BaseCP):
 
         if self._has_normal_equations(mode):
             return base.normal_equations_rightsolve(
-                rightsolve, ridge_penalty, scalable_columns=not self.orthonormality_constraints[mode]
+                rightsolve, ridge_penalty, scalable_columns=not self._is_orthonormal(mode)
             )
         if ridge_penalty != 0:
             rightsolve = base.add_rightsolve_ridge(rightsolve, ridge_penalty)
-- 
2.43.0


From 13a04898ef91508969870eff0b896a07675e90b3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 33/45] fix: the SVD initialisation of PARAFAC2 overflowed for
 small integer types

---
 src/tenkit/decomposition/parafac2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 55ffe82..5d3e6fa 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -106,7 +106,8 @@ class BaseParafac2(BaseDecomposer):
         Y = np.zeros([I, I])
 
         for k in range(K):
-            Y += self.X[k] @ self.X[k].T
+            X_k = np.asarray(self.X[k], dtype=float)  # The products of small integers may overflow
+            Y += X_k @ X_k.T
 
         A = get_pca_loadings(Y, self.rank)
         blueprint_B = np.identity(self.rank)
-- 
2.43.0


From 75bab788a2d6a120245585b5f76347cecbf175ec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 34/45] fix: a log continued after a failed write contained
 zeros that were never logged

---
 src/tenkit/log.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tenkit/log.py b/src/tenkit/log.py
index a1f6072..e633484 100644
--- a/src/tenkit/log.py
+++ b/src/tenkit/log.py
@@ -66,8 +66,8 @@ class HDF5Logger(Logger):
             self._it_num = 0
         else:
             with h5py.File(self.fname, 'r') as h5:
-                target = list(targets.keys())[0]
-                self._it_num = len(h5[ex_name][target])
+                # A write that was interrupted may have stored the last values of some targets only
+                self._it_num = min(len(h5[ex_name][target]) for target in targets)
         self._prev_write_it = self._it_num
         self._first_write_it = self._prev_write_it
 
@@ -91,8 +91,12 @@ class HDF5Logger(Logger):
         with h5py.File(self.fname, 'a') as h5:
             g = h5[self.ex_name]
             for target, values in self.target_values.items(): 
-                g[target].resize([self._it_num])
-                g[target][self._prev_write_it:] = values[self._prev_write_it-self._first_write_it:] 
+                try:
+                    g[target].resize([self._it_num])
+                    g[target][self._prev_write_it:] = values[self._prev_write_it-self._first_write_it:] 
+                except BaseException:
+                    g[target].resize([self._prev_write_it])  # The file should only hold logged values
+                    raise
         self._prev_write_it = self._it_num
 
 class Experiment:
-- 
2.43.0


From 5eed750dd68f837c443251db31b62a360e321ab8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:18 +0000
Subject: [PATCH 35/45] fix: weights of a start were lost in orthonormal or put
 into non-negative first modes

---
 src/tenkit/decomposition/cp.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 25f47c3..284522e 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -350,7 +350,11 @@ class CP_ALS(BaseCP):
 
     def _init_fit(self, X, max_its, initial_decomposition):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self.decomposition.factor_matrices[0][...] *= self.decomposition.weights
+        # Constrained modes may not admit the weights
+        weighted_mode = min(
+            range(len(self.factor_matrices)), key=lambda mode: (self._is_orthonormal(mode), self._is_non_negative(mode))
+        )
+        self.factor_matrices[weighted_mode][...] *= self.weights
         self.decomposition.reset_weights()
         for mode, fm in enumerate(self.factor_matrices):
             if self._is_orthonormal(mode):
@@ -377,10 +381,10 @@ class CP_ALS(BaseCP):
         return base.matrix_khatri_rao_product(self.X, self.factor_matrices, mode)
 
     def _is_non_negative(self, mode):
-        return self.non_negativity_constraints is not None and self.non_negativity_constraints[mode]
+        return self.non_negativity_constraints is not None and bool(self.non_negativity_constraints[mode])
 
     def _is_orthonormal(self, mode):
-        return self.orthonormality_constraints is not None and self.orthonormality_constraints[mode]
+        return self.orthonormality_constraints is not None and bool(self.orthonormality_constraints[mode])
 
     def _get_rightsolve(self, mode):
         rightsolve = base.rightsolve
-- 
2.43.0


From f50b5396a752644a62419ed6581b0ae12e0d8a66 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 36/45] fix: restore the line endings of parafac2.py, which
 6167ca7 changed along with its fix

---
 src/tenkit/decomposition/parafac2.py | 876 +++++++++++++--------------
 1 file changed, 438 insertions(+), 438 deletions(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 5d3e6fa..d9f1185 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -1,438 +1,438 @@
-from abc import abstractmethod
-from pathlib import Path
-import warnings
-import numpy as np
-from .base_decomposer import BaseDecomposer
-from . import decompositions
-from . import cp
-from ..utils import normalize_factors, get_pca_loadings
-from .. import base
-
-
-__all__ = ['Parafac2_ALS']
-
-
-class BaseParafac2(BaseDecomposer):
-    r"""Base class for Parafac2 decomposer objects
-
-    Arguments:
-    ----------
-    rank: int
-        Number of components 
-    max_its: int (optional, default=1000)
-        Maximum number of iterations for fitting the model. 
-        Can be overwritten by the ``fit`` method.
-    convergence_tol: float (optional, default=1e-6)
-        Minimum relative function change between two consequetive
-        iterations for the model to continue fitting. Computed as
-        
-        .. math::
-
-            \frac{L(X_i) - L(X_{i+1})}{L(X_{i+1})},
-        
-        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
-        is the decomposition at iteration :math:`i`.
-    init: str (optional, default = 'random')
-        Initialisation scheme for the decomposer (case insensitive). Options:
-    
-          * Random: Initiate the decomposition as a random Parafac2 tensor
-          * SVD: Use the SVD to find the factor matrices
-          * CP: Run 20 CP iterations and use that decomposition as initial
-          Parafac2 tensor (QR on the evolving mode to split into projection
-          and blueprint matrices)
-          * from_checkpoint: Load the last iteration in the specified
-          checkpoint file (alternatively, just the path to the decomposition file)
-          * Precomputed: Use already existing Parafac2 tensor to initialise
-          the decomposition. 
-
-    logger: list(Logger) (optional, default=None)
-        List of loggers, each logger should implement a ``log`` method
-        that takes a decomposer as input and a ``write_to_hdf5_group``
-        method that stores the log in a hdf5 group. See 
-        ``tenkit.logging.BaseLogger`` for interface.
-    checkpoint_frequency: int (optional, default=None)
-        How often the decomposer should store the decomposition and
-        logs to disk. If None or negative, will only
-        checkpoint the last iteration. 
-    checkpoint_path: str or Path (optional, default=None)
-        Where to store the log HDF5 file. If None, then the checkpoints
-        and logs are not stored to disk.
-    print_frequency: int (optional, default=None)
-        How often convergence information should be printed in the terminal.
-        None and negative values leads to no printing.
-    """
-    DecompositionType = decompositions.Parafac2Tensor
-    def __init__(self, 
-        rank, 
-        max_its=1000, 
-        convergence_tol=1e-6, 
-        init='random',
-        loggers=None,
-        checkpoint_frequency=None,
-        checkpoint_path=None,
-        print_frequency=10,
-    ):
-        super().__init__(
-            max_its=max_its,
-            convergence_tol=convergence_tol,
-            loggers=loggers,
-            checkpoint_frequency=checkpoint_frequency,
-            checkpoint_path=checkpoint_path,
-            print_frequency=print_frequency,
-        )
-
-        self.rank = rank
-        self.init = init
-
-    def set_target(self, X):
-        if not isinstance(X, list):
-            self.target_tensor = X
-            X = X.transpose(2, 0, 1)
-        
-        self.X = X
-        self.X_shape = [len(X[0]), [Xk.shape[1] for Xk in X], len(X)]    # len(A), len(Bk), len(C)
-        self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))
-        self.num_X_elements = sum([np.prod(s) for s in self.X_shape])
-
-    def init_random(self):
-        """Random initialisation of the factor matrices
-        """
-        self.decomposition = self.DecompositionType.random_init(self.X_shape, rank=self.rank)
-
-    def init_svd(self):
-        """SVD initalisation
-        """
-        I, J, K = self.X_shape
-        Y = np.zeros([I, I])
-
-        for k in range(K):
-            X_k = np.asarray(self.X[k], dtype=float)  # The products of small integers may overflow
-            Y += X_k @ X_k.T
-
-        A = get_pca_loadings(Y, self.rank)
-        blueprint_B = np.identity(self.rank)
-        C = np.ones((K, self.rank))
-
-        P = [np.eye(J[k], self.rank) for k in range(K)]
-        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
-
-        self._update_projection_matrices()
-    
-    def init_cp(self):
-        """CP initialisation. Input must be a tensor.
-        """
-        X = np.asarray(self.X)
-        cp_als = cp.CP_ALS(self.rank, 20)
-        cp_als.fit(X)
-        C, A, B = cp_als.factor_matrices
-        P, blueprint_B = np.linalg.qr(B)
-        P = [P.copy() for _ in range(len(self.X))]  # The matrices are updated in place, so they cannot be shared
-        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
-
-    def init_components(self, initial_decomposition=None):
-        if self.init.lower() == 'svd':
-            self.init_svd()
-        elif self.init.lower() == 'random':
-            self.init_random()
-        elif self.init.lower() == 'cp':
-            self.init_cp()
-        elif self.init.lower() == 'from_checkpoint':
-            self.load_checkpoint(initial_decomposition)
-        elif self.init.lower() == 'precomputed':
-            self._check_valid_components(initial_decomposition)
-            self.decomposition = initial_decomposition
-        elif Path(self.init).is_file():
-            self.load_checkpoint(self.init)
-        else:
-            # TODO: better message
-            raise ValueError('Init method must be either `random`, `svd`, `from_checkpoint` or `precomputed`.')
-
-    def _check_valid_components(self, decomposition):
-        for i, factor_matrix, factor_name in zip([0, 2], [decomposition.A, decomposition.C], ['A', 'C']):
-            if factor_matrix.shape[0] != self.X_shape[i]:
-                raise ValueError(
-                    f"The length of factor matrix {factor_name} ({factor_matrix.shape[0]}"
-                    f"is not the same as the length of X's dimension {i} ({self.X_shape[i]})"
-                )
-            if factor_matrix.shape[1] != self.rank:
-                raise ValueError(
-                    f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
-                )
-        
-        if len(decomposition.projection_matrices) != len(self.X):
-            raise ValueError(
-                f"The number of projection matrices ({len(decomposition.projection_matrices)})"
-                f" is not the same as the number of slices of X ({len(self.X)})"
-            )
-
-        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
-            if B.shape[0] != X_slice.shape[1]:
-                raise ValueError(
-                    f"The number of rows of factor matrix B_{k} ({B.shape[0]}"
-                    f"is not the same as the number of columns of X_{k} ({X_slice.shape[1]})"
-                )
-
-            if B.shape[1] != self.rank:
-                raise ValueError(
-                    f"The number of columns of B_{k} ({B.shape[1]}) does not agree with the models rank ({self.rank})"
-                )
-
-    @abstractmethod
-    def _fit(self):
-        pass
-
-    def fit(self, X, y=None, max_its=None, initial_decomposition=None):
-        """Fit a parafac2 model. Precomputed components must be specified if init method is 'precomputed'
-
-        Arguments:
-        ----------
-        X : np.ndarray
-            The tensor or list of tensor slices to fit a PARAFAC2 model to. 
-            The list indices (or first mode) correspond to the C-mode in
-            the following equation
-
-            .. math::
-
-                X_k = A diag(c_k) B_k^T
-            
-            This will be changed in a later version so that the first mode
-            is the evolving mode.
-        y : None
-            Ignored, included to follow sklearn standards.
-        max_its : int (optional)
-            If set, then this will override the class's max_its.
-        initial_decomposition : tenkit.decomposition.decompositions.Parafac2Tensor or str
-            The initial KruskalTensor (init=precomputed) to use or the path of the 
-            logfile to load (init=from_file).
-        """
-
-        self._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self._fit()
-
-    def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
-        self.fit(X, y=y, max_its=max_its, initial_decomposition=initial_decomposition)
-        return self.decomposition
-
-    @property
-    def loss(self):
-        return self.SSE
-
-    def _fit(self):
-        return 1 - self.SSE/(self.X_norm**2)
-
-    @property
-    def SSE(self):
-        SSE = 0
-        for X_k, reconstructed_X_k, in zip(self.X, self.reconstructed_X):
-            SSE += np.sum((X_k - reconstructed_X_k)**2)
-        return SSE
-
-    @property
-    def MSE(self):
-        return self.SSE/self.decomposition.num_elements
-        
-    @property
-    def reconstructed_X(self):
-        return self.decomposition.construct_slices()
-    
-    @property
-    def projected_X(self):
-        I = self.decomposition.A.shape[0]
-        K = self.decomposition.C.shape[0]
-        projected_X = np.empty((I, self.rank, K))
-
-        for k, projection_matrix in enumerate(self.decomposition.projection_matrices):
-            projected_X[..., k] = self.X[k]@projection_matrix
-        return projected_X
-
-    # TODO: Change name of this function
-    def _update_projection_matrices(self):
-        K = self.X_shape[2]
-
-        for k in range(K):
-            A = self.decomposition.A
-            C = self.decomposition.C
-            blueprint_B = self.decomposition.blueprint_B
-
-            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(
-                (C[k]*A)@blueprint_B.T,
-                self.X[k]
-            ).T
-
-
-class Parafac2_ALS(BaseParafac2):
-    r"""Decomposer for Parafac2 with ALS optimization
-
-    Arguments:
-    ----------
-    rank: int
-        Number of components 
-    max_its: int (optional, default=1000)
-        Maximum number of iterations for fitting the model. 
-        Can be overwritten by the ``fit`` method.
-    convergence_tol: float (optional, default=1e-6)
-        Minimum relative function change between two consequetive
-        iterations for the model to continue fitting. Computed as
-        
-        .. math::
-
-            \frac{L(X_i) - L(X_{i+1}) }{L(X_{i+1})},
-        
-        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
-        is the decomposition at iteration :math:`i`.
-    init: str (optional, default = 'random')
-        Initialisation scheme for the decomposer (case insensitive). Options:
-    
-          * Random: Initiate the decomposition as a random Parafac2 tensor
-          * SVD: Use the SVD to find the factor matrices
-          * CP: Run 20 CP iterations and use that decomposition as initial
-          Parafac2 tensor (QR on the evolving mode to split into projection
-          and blueprint matrices)
-          * from_checkpoint: Load the last iteration in the specified
-          checkpoint file (alternatively, just the path to the decomposition file)
-          * Precomputed: Use already existing Parafac2 tensor to initialise
-          the decomposition. 
-    logger: list(Logger) (optional, default=None)
-        List of loggers, each logger should implement a ``log`` method
-        that takes a decomposer as input and a ``write_to_hdf5_group``
-        method that stores the log in a hdf5 group. See 
-        ``tenkit.logging.BaseLogger`` for interface.
-    checkpoint_frequency: int (optional, default=None)
-        How often the decomposer should store the decomposition and
-        logs to disk. If None or negative, will only
-        checkpoint the last iteration. 
-    checkpoint_path: str or Path (optional, default=None)
-        Where to store the log HDF5 file. If None, then the checkpoints
-        and logs are not stored to disk.
-    print_frequency: int (optional, default=None)
-        How often convergence information should be printed in the terminal.
-        None and negative values leads to no printing.
-    cp_updates_per_it: int (optional, default=5)
-        Number of CP iterations to run between each projection matrix update.
-    non_negativity_constraints: list(bool) (optional, default=None)
-        If nth element in the list is True, the nth mode is constrained to be
-        non-negative. If None, no modes are constrained.
-        Note: The evolving mode cannot be constrained. 
-    ridge_penalties: list(float) (optional, default=None)
-        Regularisation parameters. The loss is regularised such that
-
-        .. math::
-
-            L_{reg} = L + \sum_i \lambda_i ||U_i||_F^2
-
-        Where :math:`L_{reg}` is the regularised loss, :math:`L` is the unregularised
-        loss, :math:`\lambda_i` is the ith element in ``ridge_penalites`` and :math:`U_i`
-        is the ith factor matrix (or blueprint factor matrix for the evolving mode). 
-        If None, no modes are regularised.
-    orthonormality_constraints: list(bool) (optional, default=None)
-        If nth element in the list is True, the nth mode is constrained to be
-        orthonormal. If None, no modes are constrained. Note: all modes should not be
-        orhtonormal and the evolving mode cannot be constrained. 
-    """
-    def __init__(
-        self,
-        rank,
-        max_its=1000, 
-        convergence_tol=1e-6, 
-        init='random',
-        loggers=None,
-        checkpoint_frequency=None,
-        checkpoint_path=None,
-        print_frequency=10,
-        cp_updates_per_it=5,
-        non_negativity_constraints=None,
-        ridge_penalties=None,
-        orthonormality_constraints=None,
-    ):
-        super().__init__(
-            rank,
-            max_its=max_its,
-            convergence_tol=convergence_tol,
-            init=init,
-            loggers=loggers,
-            checkpoint_frequency=checkpoint_frequency,
-            checkpoint_path=checkpoint_path,
-            print_frequency=print_frequency,
-        )
-        self.non_negativity_constraints = non_negativity_constraints
-        if self.non_negativity_constraints is None:
-            self.non_negativity_constraints = [False, False, False]
-        if self.non_negativity_constraints[1]:
-            warnings.warn(
-                "Non negativity constraints on the evolving (second) mode will only"
-                " be imposed on the blueprint matrix, not the evolving components.",
-                RuntimeWarning
-            )
-
-        self.cp_updates_per_it = cp_updates_per_it
-        self.ridge_penalties = ridge_penalties
-        self.orthonormality_constraints = orthonormality_constraints
-
-    def _init_fit(self, X, max_its, initial_decomposition):
-        super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self.prev_loss = self.loss
-        self._rel_function_change = np.inf
-
-    def _prepare_cp_decomposer(self):
-        self.cp_decomposition = decompositions.KruskalTensor([self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C])
-        self.cp_decomposer = cp.CP_ALS(
-            self.rank,
-            max_its=np.inf, 
-            convergence_tol=0,
-            print_frequency=-1, 
-            non_negativity_constraints=self.non_negativity_constraints,
-            ridge_penalties=self.ridge_penalties,
-            orthonormality_constraints=self.orthonormality_constraints,
-            init='precomputed'
-        )
-        self.cp_decomposer._init_fit(X=self.projected_X, max_its=np.inf, initial_decomposition=self.cp_decomposition)
-
-    def _fit(self):
-
-        self._prepare_cp_decomposer()
-        first_iteration = self.current_iteration
-        for _ in range(self.max_its - self.current_iteration):
-            if abs(self._rel_function_change) < self.convergence_tol:
-                break
-
-            self._update_parafac2_factors()
-            self._update_convergence()
-
-            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
-                print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
-                      f'improvement is {self._rel_function_change:g}')
-
-            self._after_fit_iteration()
-
-        self._after_fit(first_iteration)
-
-    def _update_convergence(self):
-        loss = self.loss
-        self._rel_function_change = (self.prev_loss - loss)/self.prev_loss
-        self.prev_loss = loss
-
-    def _update_parafac2_factors(self):
-        #print('Before projection update') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-        self._update_projection_matrices()
-
-        #print('Before ALS update') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-
-        self.cp_decomposer.set_target(self.projected_X)
-        for _ in range(self.cp_updates_per_it):
-            self.cp_decomposer._update_als_factors()
-        self.decomposition.blueprint_B[...] *= self.cp_decomposer.weights
-        self.cp_decomposition.weights = self.cp_decomposition.weights*0 + 1
-        #print('After iteration') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-        # from pdb import set_trace; set_trace()
-
-    @property
-    def loss(self):
-        loss = self.SSE
-        if self.ridge_penalties is not None:
-            factor_matrices = [self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C]
-            for factor, penalty in zip(factor_matrices, self.ridge_penalties):
-                loss += penalty*np.linalg.norm(factor)**2
-        return loss
+from abc import abstractmethod
+from pathlib import Path
+import warnings
+import numpy as np
+from .base_decomposer import BaseDecomposer
+from . import decompositions
+from . import cp
+from ..utils import normalize_factors, get_pca_loadings
+from .. import base
+
+
+__all__ = ['Parafac2_ALS']
+
+
+class BaseParafac2(BaseDecomposer):
+    r"""Base class for Parafac2 decomposer objects
+
+    Arguments:
+    ----------
+    rank: int
+        Number of components 
+    max_its: int (optional, default=1000)
+        Maximum number of iterations for fitting the model. 
+        Can be overwritten by the ``fit`` method.
+    convergence_tol: float (optional, default=1e-6)
+        Minimum relative function change between two consequetive
+        iterations for the model to continue fitting. Computed as
+        
+        .. math::
+
+            \frac{L(X_i) - L(X_{i+1})}{L(X_{i+1})},
+        
+        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
+        is the decomposition at iteration :math:`i`.
+    init: str (optional, default = 'random')
+        Initialisation scheme for the decomposer (case insensitive). Options:
+    
+          * Random: Initiate the decomposition as a random Parafac2 tensor
+          * SVD: Use the SVD to find the factor matrices
+          * CP: Run 20 CP iterations and use that decomposition as initial
+          Parafac2 tensor (QR on the evolving mode to split into projection
+          and blueprint matrices)
+          * from_checkpoint: Load the last iteration in the specified
+          checkpoint file (alternatively, just the path to the decomposition file)
+          * Precomputed: Use already existing Parafac2 tensor to initialise
+          the decomposition. 
+
+    logger: list(Logger) (optional, default=None)
+        List of loggers, each logger should implement a ``log`` method
+        that takes a decomposer as input and a ``write_to_hdf5_group``
+        method that stores the log in a hdf5 group. See 
+        ``tenkit.logging.BaseLogger`` for interface.
+    checkpoint_frequency: int (optional, default=None)
+        How often the decomposer should store the decomposition and
+        logs to disk. If None or negative, will only
+        checkpoint the last iteration. 
+    checkpoint_path: str or Path (optional, default=None)
+        Where to store the log HDF5 file. If None, then the checkpoints
+        and logs are not stored to disk.
+    print_frequency: int (optional, default=None)
+        How often convergence information should be printed in the terminal.
+        None and negative values leads to no printing.
+    """
+    DecompositionType = decompositions.Parafac2Tensor
+    def __init__(self, 
+        rank, 
+        max_its=1000, 
+        convergence_tol=1e-6, 
+        init='random',
+        loggers=None,
+        checkpoint_frequency=None,
+        checkpoint_path=None,
+        print_frequency=10,
+    ):
+        super().__init__(
+            max_its=max_its,
+            convergence_tol=convergence_tol,
+            loggers=loggers,
+            checkpoint_frequency=checkpoint_frequency,
+            checkpoint_path=checkpoint_path,
+            print_frequency=print_frequency,
+        )
+
+        self.rank = rank
+        self.init = init
+
+    def set_target(self, X):
+        if not isinstance(X, list):
+            self.target_tensor = X
+            X = X.transpose(2, 0, 1)
+        
+        self.X = X
+        self.X_shape = [len(X[0]), [Xk.shape[1] for Xk in X], len(X)]    # len(A), len(Bk), len(C)
+        self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))
+        self.num_X_elements = sum([np.prod(s) for s in self.X_shape])
+
+    def init_random(self):
+        """Random initialisation of the factor matrices
+        """
+        self.decomposition = self.DecompositionType.random_init(self.X_shape, rank=self.rank)
+
+    def init_svd(self):
+        """SVD initalisation
+        """
+        I, J, K = self.X_shape
+        Y = np.zeros([I, I])
+
+        for k in range(K):
+            X_k = np.asarray(self.X[k], dtype=float)  # The products of small integers may overflow
+            Y += X_k @ X_k.T
+
+        A = get_pca_loadings(Y, self.rank)
+        blueprint_B = np.identity(self.rank)
+        C = np.ones((K, self.rank))
+
+        P = [np.eye(J[k], self.rank) for k in range(K)]
+        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
+
+        self._update_projection_matrices()
+    
+    def init_cp(self):
+        """CP initialisation. Input must be a tensor.
+        """
+        X = np.asarray(self.X)
+        cp_als = cp.CP_ALS(self.rank, 20)
+        cp_als.fit(X)
+        C, A, B = cp_als.factor_matrices
+        P, blueprint_B = np.linalg.qr(B)
+        P = [P.copy() for _ in range(len(self.X))]  # The matrices are updated in place, so they cannot be shared
+        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
+
+    def init_components(self, initial_decomposition=None):
+        if self.init.lower() == 'svd':
+            self.init_svd()
+        elif self.init.lower() == 'random':
+            self.init_random()
+        elif self.init.lower() == 'cp':
+            self.init_cp()
+        elif self.init.lower() == 'from_checkpoint':
+            self.load_checkpoint(initial_decomposition)
+        elif self.init.lower() == 'precomputed':
+            self._check_valid_components(initial_decomposition)
+            self.decomposition = initial_decomposition
+        elif Path(self.init).is_file():
+            self.load_checkpoint(self.init)
+        else:
+            # TODO: better message
+            raise ValueError('Init method must be either `random`, `svd`, `from_checkpoint` or `precomputed`.')
+
+    def _check_valid_components(self, decomposition):
+        for i, factor_matrix, factor_name in zip([0, 2], [decomposition.A, decomposition.C], ['A', 'C']):
+            if factor_matrix.shape[0] != self.X_shape[i]:
+                raise ValueError(
+                    f"The length of factor matrix {factor_name} ({factor_matrix.shape[0]}"
+                    f"is not the same as the length of X's dimension {i} ({self.X_shape[i]})"
+                )
+            if factor_matrix.shape[1] != self.rank:
+                raise ValueError(
+                    f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
+                )
+        
+        if len(decomposition.projection_matrices) != len(self.X):
+            raise ValueError(
+                f"The number of projection matrices ({len(decomposition.projection_matrices)})"
+                f" is not the same as the number of slices of X ({len(self.X)})"
+            )
+
+        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
+            if B.shape[0] != X_slice.shape[1]:
+                raise ValueError(
+                    f"The number of rows of factor matrix B_{k} ({B.shape[0]}"
+                    f"is not the same as the number of columns of X_{k} ({X_slice.shape[1]})"
+                )
+
+            if B.shape[1] != self.rank:
+                raise ValueError(
+                    f"The number of columns of B_{k} ({B.shape[1]}) does not agree with the models rank ({self.rank})"
+                )
+
+    @abstractmethod
+    def _fit(self):
+        pass
+
+    def fit(self, X, y=None, max_its=None, initial_decomposition=None):
+        """Fit a parafac2 model. Precomputed components must be specified if init method is 'precomputed'
+
+        Arguments:
+        ----------
+        X : np.ndarray
+            The tensor or list of tensor slices to fit a PARAFAC2 model to. 
+            The list indices (or first mode) correspond to the C-mode in
+            the following equation
+
+            .. math::
+
+                X_k = A diag(c_k) B_k^T
+            
+            This will be changed in a later version so that the first mode
+            is the evolving mode.
+        y : None
+            Ignored, included to follow sklearn standards.
+        max_its : int (optional)
+            If set, then this will override the class's max_its.
+        initial_decomposition : tenkit.decomposition.decompositions.Parafac2Tensor or str
+            The initial KruskalTensor (init=precomputed) to use or the path of the 
+            logfile to load (init=from_file).
+        """
+
+        self._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        self._fit()
+
+    def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
+        self.fit(X, y=y, max_its=max_its, initial_decomposition=initial_decomposition)
+        return self.decomposition
+
+    @property
+    def loss(self):
+        return self.SSE
+
+    def _fit(self):
+        return 1 - self.SSE/(self.X_norm**2)
+
+    @property
+    def SSE(self):
+        SSE = 0
+        for X_k, reconstructed_X_k, in zip(self.X, self.reconstructed_X):
+            SSE += np.sum((X_k - reconstructed_X_k)**2)
+        return SSE
+
+    @property
+    def MSE(self):
+        return self.SSE/self.decomposition.num_elements
+        
+    @property
+    def reconstructed_X(self):
+        return self.decomposition.construct_slices()
+    
+    @property
+    def projected_X(self):
+        I = self.decomposition.A.shape[0]
+        K = self.decomposition.C.shape[0]
+        projected_X = np.empty((I, self.rank, K))
+
+        for k, projection_matrix in enumerate(self.decomposition.projection_matrices):
+            projected_X[..., k] = self.X[k]@projection_matrix
+        return projected_X
+
+    # TODO: Change name of this function
+    def _update_projection_matrices(self):
+        K = self.X_shape[2]
+
+        for k in range(K):
+            A = self.decomposition.A
+            C = self.decomposition.C
+            blueprint_B = self.decomposition.blueprint_B
+
+            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(
+                (C[k]*A)@blueprint_B.T,
+                self.X[k]
+            ).T
+
+
+class Parafac2_ALS(BaseParafac2):
+    r"""Decomposer for Parafac2 with ALS optimization
+
+    Arguments:
+    ----------
+    rank: int
+        Number of components 
+    max_its: int (optional, default=1000)
+        Maximum number of iterations for fitting the model. 
+        Can be overwritten by the ``fit`` method.
+    convergence_tol: float (optional, default=1e-6)
+        Minimum relative function change between two consequetive
+        iterations for the model to continue fitting. Computed as
+        
+        .. math::
+
+            \frac{L(X_i) - L(X_{i+1}) }{L(X_{i+1})},
+        
+        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
+        is the decomposition at iteration :math:`i`.
+    init: str (optional, default = 'random')
+        Initialisation scheme for the decomposer (case insensitive). Options:
+    
+          * Random: Initiate the decomposition as a random Parafac2 tensor
+          * SVD: Use the SVD to find the factor matrices
+          * CP: Run 20 CP iterations and use that decomposition as initial
+          Parafac2 tensor (QR on the evolving mode to split into projection
+          and blueprint matrices)
+          * from_checkpoint: Load the last iteration in the specified
+          checkpoint file (alternatively, just the path to the decomposition file)
+          * Precomputed: Use already existing Parafac2 tensor to initialise
+          the decomposition. 
+    logger: list(Logger) (optional, default=None)
+        List of loggers, each logger should implement a ``log`` method
+        that takes a decomposer as input and a ``write_to_hdf5_group``
+        method that stores the log in a hdf5 group. See 
+        ``tenkit.logging.BaseLogger`` for interface.
+    checkpoint_frequency: int (optional, default=None)
+        How often the decomposer should store the decomposition and
+        logs to disk. If None or negative, will only
+        checkpoint the last iteration. 
+    checkpoint_path: str or Path (optional, default=None)
+        Where to store the log HDF5 file. If None, then the checkpoints
+        and logs are not stored to disk.
+    print_frequency: int (optional, default=None)
+        How often convergence information should be printed in the terminal.
+        None and negative values leads to no printing.
+    cp_updates_per_it: int (optional, default=5)
+        Number of CP iterations to run between each projection matrix update.
+    non_negativity_constraints: list(bool) (optional, default=None)
+        If nth element in the list is True, the nth mode is constrained to be
+        non-negative. If None, no modes are constrained.
+        Note: The evolving mode cannot be constrained. 
+    ridge_penalties: list(float) (optional, default=None)
+        Regularisation parameters. The loss is regularised such that
+
+        .. math::
+
+            L_{reg} = L + \sum_i \lambda_i ||U_i||_F^2
+
+        Where :math:`L_{reg}` is the regularised loss, :math:`L` is the unregularised
+        loss, :math:`\lambda_i` is the ith element in ``ridge_penalites`` and :math:`U_i`
+        is the ith factor matrix (or blueprint factor matrix for the evolving mode). 
+        If None, no modes are regularised.
+    orthonormality_constraints: list(bool) (optional, default=None)
+        If nth element in the list is True, the nth mode is constrained to be
+        orthonormal. If None, no modes are constrained. Note: all modes should not be
+        orhtonormal and the evolving mode cannot be constrained. 
+    """
+    def __init__(
+        self,
+        rank,
+        max_its=1000, 
+        convergence_tol=1e-6, 
+        init='random',
+        loggers=None,
+        checkpoint_frequency=None,
+        checkpoint_path=None,
+        print_frequency=10,
+        cp_updates_per_it=5,
+        non_negativity_constraints=None,
+        ridge_penalties=None,
+        orthonormality_constraints=None,
+    ):
+        super().__init__(
+            rank,
+            max_its=max_its,
+            convergence_tol=convergence_tol,
+            init=init,
+            loggers=loggers,
+            checkpoint_frequency=checkpoint_frequency,
+            checkpoint_path=checkpoint_path,
+            print_frequency=print_frequency,
+        )
+        self.non_negativity_constraints = non_negativity_constraints
+        if self.non_negativity_constraints is None:
+            self.non_negativity_constraints = [False, False, False]
+        if self.non_negativity_constraints[1]:
+            warnings.warn(
+                "Non negativity constraints on the evolving (second) mode will only"
+                " be imposed on the blueprint matrix, not the evolving components.",
+                RuntimeWarning
+            )
+
+        self.cp_updates_per_it = cp_updates_per_it
+        self.ridge_penalties = ridge_penalties
+        self.orthonormality_constraints = orthonormality_constraints
+
+    def _init_fit(self, X, max_its, initial_decomposition):
+        super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        self.prev_loss = self.loss
+        self._rel_function_change = np.inf
+
+    def _prepare_cp_decomposer(self):
+        self.cp_decomposition = decompositions.KruskalTensor([self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C])
+        self.cp_decomposer = cp.CP_ALS(
+            self.rank,
+            max_its=np.inf, 
+            convergence_tol=0,
+            print_frequency=-1, 
+            non_negativity_constraints=self.non_negativity_constraints,
+            ridge_penalties=self.ridge_penalties,
+            orthonormality_constraints=self.orthonormality_constraints,
+            init='precomputed'
+        )
+        self.cp_decomposer._init_fit(X=self.projected_X, max_its=np.inf, initial_decomposition=self.cp_decomposition)
+
+    def _fit(self):
+
+        self._prepare_cp_decomposer()
+        first_iteration = self.current_iteration
+        for _ in range(self.max_its - self.current_iteration):
+            if abs(self._rel_function_change) < self.convergence_tol:
+                break
+
+            self._update_parafac2_factors()
+            self._update_convergence()
+
+            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
+                print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
+                      f'improvement is {self._rel_function_change:g}')
+
+            self._after_fit_iteration()
+
+        self._after_fit(first_iteration)
+
+    def _update_convergence(self):
+        loss = self.loss
+        self._rel_function_change = (self.prev_loss - loss)/self.prev_loss
+        self.prev_loss = loss
+
+    def _update_parafac2_factors(self):
+        #print('Before projection update') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+        self._update_projection_matrices()
+
+        #print('Before ALS update') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+
+        self.cp_decomposer.set_target(self.projected_X)
+        for _ in range(self.cp_updates_per_it):
+            self.cp_decomposer._update_als_factors()
+        self.decomposition.blueprint_B[...] *= self.cp_decomposer.weights
+        self.cp_decomposition.weights = self.cp_decomposition.weights*0 + 1
+        #print('After iteration') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+        # from pdb import set_trace; set_trace()
+
+    @property
+    def loss(self):
+        loss = self.SSE
+        if self.ridge_penalties is not None:
+            factor_matrices = [self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C]
+            for factor, penalty in zip(factor_matrices, self.ridge_penalties):
+                loss += penalty*np.linalg.norm(factor)**2
+        return loss
-- 
2.43.0


From 1dd30f99cc34362310509e630aa6735bc5fb09e2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:18 +0000
Subject: [PATCH 37/45] fix: checkpoints beyond the 8183rd could not be listed
 (attribute above 64 KB)

---
 src/tenkit/decomposition/base_decomposer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 8ef0daa..482ed43 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -179,7 +179,7 @@ class BaseDecomposer(ABC):
         """Store the decomposition after the last completed iteration and the logs.
         """
         it = self.current_iteration - 1
-        with h5py.File(self.checkpoint_path, 'a') as h5:
+        with h5py.File(self.checkpoint_path, 'a', libver=('v108', 'latest')) as h5:
             # Store the decomposition first, the file should only refer to complete checkpoints
             checkpoint_name = f'checkpoint_{it:05d}'
             checkpoint_group = h5.create_group(checkpoint_name)
-- 
2.43.0


From 77c20e251f6fcd2421d0cc716abbfa2c2a5cd09b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:18 +0000
Subject: [PATCH 38/45] fix: log values were truncated to the type of the first
 ones written

---
 src/tenkit/decomposition/logging/logger.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tenkit/decomposition/logging/logger.py b/src/tenkit/decomposition/logging/logger.py
index 629fff1..bba5a79 100644
--- a/src/tenkit/decomposition/logging/logger.py
+++ b/src/tenkit/decomposition/logging/logger.py
@@ -40,6 +40,13 @@ class BaseLogger(ABC):
             List containing the log values.
         """
         log = np.array(log)
+        if logname in logger_group and len(log) > 0:
+            stored = logger_group[logname]
+            if np.result_type(stored.dtype, log.dtype) != stored.dtype:
+                # The stored values cannot represent the new ones (e.g. integers and floats)
+                log = np.concatenate([stored[...], log])
+                del logger_group[logname]
+
         if logname in logger_group:
             old_length = logger_group[logname].shape[0]
             new_length = old_length + len(log) 
-- 
2.43.0


From cca40cef12d4dfaa6357e7d278b5757a36760d45 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:29 +0000
Subject: [PATCH 39/45] fix: contradictory constraints were accepted by fits
 that perform no iteration

---
 src/tenkit/decomposition/cp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 284522e..e8e8b66 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -349,6 +349,10 @@ class CP_ALS(BaseCP):
 
 
     def _init_fit(self, X, max_its, initial_decomposition):
+        for mode in range(len(X.shape)):
+            if self._is_non_negative(mode) and self._is_orthonormal(mode):
+                raise ValueError('Cannot perform nonnegative orthogonal solve')
+
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
         # Constrained modes may not admit the weights
         weighted_mode = min(
@@ -392,9 +396,6 @@ class CP_ALS(BaseCP):
             rightsolve = base.non_negative_rightsolve
         
         if self._is_orthonormal(mode):
-            if self._is_non_negative(mode):
-                raise ValueError('Cannot perform nonnegative orthogonal solve')
-
             rightsolve = base.orthogonal_rightsolve
 
         ridge_penalty = 0
-- 
2.43.0


From 12925eaac146b0f9d7460d238443016b0d1144a3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:05 +0000
Subject: [PATCH 40/45] fix: CMTF updates truncated components that are much
 smaller than the others

---
 src/tenkit/base.py               | 13 +++++++++++++
 src/tenkit/decomposition/cmtf.py |  4 ++--
 src/tenkit/decomposition/cp.py   |  2 ++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index de68a8b..ebf7d1d 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -61,6 +61,19 @@ def add_rightsolve_ridge(rightsolve, ridge_penalty):
     return ridge_rightsolve
 
 
+def scaled_rightsolve(rightsolve):
+    """Make a rightsolve scale the rows of A to unit norm.
+
+    Then, components of different sizes are solved for equally accurately. The
+    columns of X are scaled by positive numbers, which its constraints must admit.
+    """
+    def scaled(A, B):
+        norms = np.linalg.norm(A, axis=1)
+        norms = np.where(norms == 0, 1, norms)
+        return rightsolve(A/norms[:, np.newaxis], B)/norms
+    return scaled
+
+
 def normal_equations_rightsolve(rightsolve, ridge_penalty=0, scalable_columns=True):
     """Make a rightsolve take the normal equations instead of the least squares problem.
 
diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 7a1581c..eebb1c9 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -177,10 +177,10 @@ class CMTF_ALS(CP_ALS):
             rhs = self.coupled_matrices[cm_idx].T
 
             if self._is_non_negative(mode):
-                new_fm = base.non_negative_rightsolve(lhs, rhs)
+                new_fm = base.scaled_rightsolve(base.non_negative_rightsolve)(lhs, rhs)
                 self.uncoupled_factor_matrices[cm_idx][...] = new_fm
             else:
-                self.uncoupled_factor_matrices[cm_idx][...] = base.rightsolve(lhs, rhs)
+                self.uncoupled_factor_matrices[cm_idx][...] = base.scaled_rightsolve(base.rightsolve)(lhs, rhs)
 
 
 
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index e8e8b66..7b77ab8 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -406,6 +406,8 @@ class CP_ALS(BaseCP):
             return base.normal_equations_rightsolve(
                 rightsolve, ridge_penalty, scalable_columns=not self._is_orthonormal(mode)
             )
+        if not self._is_orthonormal(mode):
+            rightsolve = base.scaled_rightsolve(rightsolve)
         if ridge_penalty != 0:
             rightsolve = base.add_rightsolve_ridge(rightsolve, ridge_penalty)
         return rightsolve
-- 
2.43.0


From 132c6a3c88bb8e1fe155d5190ce83b63e1111f41 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:07 +0000
Subject: [PATCH 41/45] fix: updates lost accuracy when components were nearly
 dependent

---
 src/tenkit/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index ebf7d1d..19897ba 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -13,7 +13,8 @@ def rightsolve(A, B):
     S[should_keep] = 1/S[should_keep]
     S[~should_keep] = 0
 
-    return B @ (Vh.T * S @ U.T)
+    # Not B @ pinv(A), since the pseudo-inverse is inaccurate if A is nearly rank deficient
+    return (B @ Vh.T * S) @ U.T
 
 
 def non_negative_rightsolve(A, B):
-- 
2.43.0


From a05f1d514be0a621138b72b6b8606d930e05af9e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:12 +0000
Subject: [PATCH 42/45] fix: a checkpoint that was refused changed the
 iteration count of the model

---
 src/tenkit/decomposition/base_decomposer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 482ed43..302b539 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -216,7 +216,6 @@ class BaseDecomposer(ABC):
 
             if load_it is None:
                 load_it = h5.attrs['final_iteration']
-            self.current_iteration = int(load_it) + 1  # The checkpoint is stored after iteration load_it
 
             group_name = f'checkpoint_{load_it:05d}'
             if group_name not in h5:
@@ -227,6 +226,7 @@ class BaseDecomposer(ABC):
 
         self._check_valid_components(initial_decomposition)
         self.decomposition = initial_decomposition
+        self.current_iteration = int(load_it) + 1  # The checkpoint is stored after iteration load_it
     
     def _after_fit_iteration(self):
         for logger in self.loggers:
-- 
2.43.0


From 6a22e1d900a6e15e918ba22ca9f6116f5d031e31 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:39 +0000
Subject: [PATCH 43/45] fix: the logs of several loggers of the same class were
 mixed up in the checkpoint file

---
 src/tenkit/decomposition/base_decomposer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 302b539..d1b0fc0 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -197,8 +197,13 @@ class BaseDecomposer(ABC):
             h5.attrs['final_iteration'] = it
             h5.attrs['decomposition_type'] = type(self).__name__
 
+            written = []
             for logger in self.loggers:
-                logger.write_to_hdf5_group(h5)
+                # Loggers of the same class write to groups with the same name, keep their logs apart
+                name = type(logger).__name__
+                written.append(name)
+                n = written.count(name)
+                logger.write_to_hdf5_group(h5 if n == 1 else h5.require_group(f'{name}_{n}'))
     
     @abstractmethod
     def _check_valid_components(self, decomposition):
-- 
2.43.0


From c8d6a20dd07764612aacb48e6456181bbe5e8bb6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:20 +0000
Subject: [PATCH 44/45] fix: a model that loaded a checkpoint and was continued
 kept the convergence of its earlier fit

---
 src/tenkit/decomposition/cp.py       | 8 ++++++++
 src/tenkit/decomposition/parafac2.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 7b77ab8..daef4b1 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -372,6 +372,12 @@ class CP_ALS(BaseCP):
         self._matrix_khatri_rao_product_cache = None
         # self._matrix_khatri_rao_product_cache = [np.empty_like(factor) for factor in self.factor_matrices]
 
+    def load_checkpoint(self, checkpoint_path, load_it=None):
+        super().load_checkpoint(checkpoint_path, load_it=load_it)
+        # The convergence of earlier iterations says nothing about the loaded decomposition
+        self._rel_function_change = np.inf
+        self.prev_SSE = None
+
     def _get_als_lhs(self, skip_mode):
         """Compute left hand side of least squares problem."""
         V = np.ones((self.rank, self.rank))
@@ -443,6 +449,8 @@ class CP_ALS(BaseCP):
         """Fit a CP model with Alternating Least Squares.
         """
         first_iteration = self.current_iteration
+        if self.prev_SSE is None:
+            self.prev_SSE = self.SSE
         for _ in range(self.max_its - self.current_iteration):
             rel_loss = self.SSE/self.X_norm**2
             if (
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index d9f1185..914b345 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -373,6 +373,12 @@ class Parafac2_ALS(BaseParafac2):
         self.prev_loss = self.loss
         self._rel_function_change = np.inf
 
+    def load_checkpoint(self, checkpoint_path, load_it=None):
+        super().load_checkpoint(checkpoint_path, load_it=load_it)
+        # The convergence of earlier iterations says nothing about the loaded decomposition
+        self._rel_function_change = np.inf
+        self.prev_loss = None
+
     def _prepare_cp_decomposer(self):
         self.cp_decomposition = decompositions.KruskalTensor([self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C])
         self.cp_decomposer = cp.CP_ALS(
@@ -391,6 +397,8 @@ class Parafac2_ALS(BaseParafac2):
 
         self._prepare_cp_decomposer()
         first_iteration = self.current_iteration
+        if self.prev_loss is None:
+            self.prev_loss = self.loss
         for _ in range(self.max_its - self.current_iteration):
             if abs(self._rel_function_change) < self.convergence_tol:
                 break
-- 
2.43.0


From d3fdd77f22268ca3cb8164a434cb34d361006b40 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:56 +0000
Subject: [PATCH 45/45] fix: checkpoints from the hundred-thousandth iteration
 on were not iterated in order

---
 src/tenkit/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 11537b1..1674a4c 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -218,7 +218,8 @@ def fix_signs_evolving_tensor(evolving_tensor, data_tensor):
     return fixed_evolving_tensor
 
 def iter_checkpoints(h5_checkpoint_file):
-    for groupname in sorted(h5_checkpoint_file):
+    # The iterations are padded to five digits, so longer names have later iterations
+    for groupname in sorted(h5_checkpoint_file, key=lambda name: (len(name), name)):
         if groupname.startswith('checkpoint'):
             yield h5_checkpoint_file[groupname]
     
\ No newline at end of file
-- 
2.43.0

