From abc839d8e697543b59925a82b8ff2786ea5e34a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 01/14] fix: a failed attach_to() must not leave a KernelMatrix
 half-attached

The samples were stored before their dimensionalities were compared, so
after the ValueError the old shape and cached values were mixed with the
new sample.
---
 kernelmethods/base.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index f84bc4a..2e56fc4 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -248,7 +248,15 @@ class KernelMatrix(object):
             Name for the second sample.
         """
 
-        self._sample = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        # validating both samples fully, before changing any internal state
+        sample_one = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        if sample_two is not None:
+            sample_two = ensure_ndarray_2D(sample_two,
+                                           ensure_dtype=sample_two.dtype)
+            if sample_one.shape[1] != sample_two.shape[1]:
+                raise ValueError('Dimensionalities of the two samples differ!')
+
+        self._sample = sample_one
         self._sample_name = name_one
 
         if sample_two is None:
@@ -263,12 +271,7 @@ class KernelMatrix(object):
                                                 self._sample.shape)
 
         else:
-            self._sample_two = ensure_ndarray_2D(sample_two,
-                                                 ensure_dtype=sample_two.dtype)
-
-            if self._sample.shape[1] != self._sample_two.shape[1]:
-                raise ValueError('Dimensionalities of the two samples differ!')
-
+            self._sample_two = sample_two
             self._name_two = name_two
             self._num_samples = (self._sample.shape[0], self._sample_two.shape[0])
             self.shape = (self._sample.shape[0], self._sample_two.shape[0])
-- 
2.43.0


From 92cdffe19a314b5760c0658f90d757b89a8b4df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 02/14] fix: discard the partially filled matrix when a kernel
 evaluation fails

A second access to .full after a failed one returned a matrix filled with
NaNs, instead of raising again.
---
 kernelmethods/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 2e56fc4..657ab6b 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -730,6 +730,8 @@ class KernelMatrix(object):
                         self._full_km[ix_one, ix_two] = \
                             self._eval_kernel(ix_one, ix_two)
             except:
+                # partially filled matrix must never be mistaken for the full one
+                del self._full_km
                 raise RuntimeError('Unable to fully compute the kernel matrix!')
             else:
                 self._populated_fully = True
-- 
2.43.0


From 8a061c844da64c8ca2b0e565c92d7f3fcc9ebe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 03/14] fix: full, centered, normed_km and frob_norm must not
 depend on access history

After full_sparse or KM[:, :], the internal matrix was left in sparse (and
possibly upper triangular) format, so a subsequent .full was sparse or
incomplete, normed_km was upper triangular, frob_norm was wrong and
centered raised an exception.
---
 kernelmethods/base.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 657ab6b..6fe56c9 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -21,7 +21,7 @@ from kernelmethods.operations import (center_km, frobenius_norm, is_PSD,
                                       normalize_km_2sample)
 from kernelmethods.utils import (check_callable, contains_nan_inf, ensure_ndarray_1D,
                                  ensure_ndarray_2D, get_callable_name, not_symmetric)
-from scipy.sparse import issparse, lil_matrix
+from scipy.sparse import issparse, lil_matrix, triu
 
 
 class BaseKernelFunction(ABC):
@@ -412,8 +412,7 @@ class KernelMatrix(object):
             raise ValueError('No sample is attached yet!\n Attach a sample first '
                              'before trying to use the KernelMatrix')
 
-        if not self._populated_fully:
-            self._populate_fully(fill_lower_tri=True, dense_fmt=True)
+        self._ensure_dense_full()
 
         if self._keep_normed:
             if not self._is_normed:
@@ -433,7 +432,9 @@ class KernelMatrix(object):
             # normalization requires a full matrix
             return self._normed_km
         else:
-            return self._populate_fully(dense_fmt=False, fill_lower_tri=False)
+            # the underlying matrix may already be in full and dense format
+            return triu(self._populate_fully(dense_fmt=False, fill_lower_tri=False),
+                        format='lil')
 
 
     def center(self):
@@ -455,8 +456,7 @@ class KernelMatrix(object):
             raise NotImplementedError('Centering is not implemented (or possible)'
                                       ' when KM is attached two separate samples.')
 
-        if not self._populated_fully:
-            self._full_km = self._populate_fully(fill_lower_tri=True, dense_fmt=True)
+        self._ensure_dense_full()
 
         self._centered = center_km(self._full_km)
         self._is_centered = True
@@ -481,8 +481,7 @@ class KernelMatrix(object):
 
         """
 
-        if not self._populated_fully:
-            self._populate_fully(dense_fmt=True, fill_lower_tri=True)
+        self._ensure_dense_full()
 
         if not self._is_normed:
             if not self._two_samples:
@@ -527,8 +526,7 @@ class KernelMatrix(object):
     def frob_norm(self):
         """Returns the Frobenius norm of the current kernel matrix"""
 
-        if not self._populated_fully:
-            self._populate_fully(dense_fmt=True, fill_lower_tri=True)
+        self._ensure_dense_full()
 
         if not hasattr(self, '_frob_norm'):
             self._frob_norm = frobenius_norm(self._full_km)
@@ -627,7 +625,7 @@ class KernelMatrix(object):
         # the entire kernel matrix with KM[:,:],
         # without exploiting the fact that KM is symmetric
         if are_all_selected_dim_one and are_all_selected_dim_two:
-            return self._populate_fully(fill_lower_tri=True)
+            return self._ensure_dense_full()
         else:
             return self._compute_for_index_combinations(set_one, set_two)
 
@@ -698,6 +696,16 @@ class KernelMatrix(object):
                         dtype=cfg.km_dtype).reshape(len(set_one), len(set_two))
 
 
+    def _ensure_dense_full(self):
+        """Ensures the full KM is dense, regardless of how it was accessed before."""
+
+        if not self._populated_fully or not self._lower_tri_km_filled or \
+            issparse(self._full_km):
+            self._populate_fully(fill_lower_tri=True, dense_fmt=True)
+
+        return self._full_km
+
+
     def _populate_fully(self, dense_fmt=False, fill_lower_tri=False):
         """Applies the kernel function on all pairs of points in a sample.
 
@@ -755,7 +763,7 @@ class KernelMatrix(object):
                 self._lower_tri_km_filled = True
 
         if issparse(self._full_km) and dense_fmt:
-            self._full_km = self._full_km.todense()
+            self._full_km = self._full_km.toarray()
 
         if contains_nan_inf(self._full_km):
             warn('Kernel matrix computation resulted in Inf or NaN values!'
-- 
2.43.0


From 3c7d31701b54232f2676f0dcd13325b2801133d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 04/14] fix: formatting a KernelMatrix, KernelSet etc with
 str.format raised TypeError

__str__ was aliased as __format__, which receives an additional argument.
Among others, this turned the Inf/NaN warning into a TypeError for custom
kernels built with KernelFromCallable.
---
 kernelmethods/base.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 6fe56c9..09492ab 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -142,7 +142,6 @@ class KernelFromCallable(BaseKernelFunction):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -786,7 +785,6 @@ class KernelMatrix(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -875,7 +873,6 @@ class KernelMatrixPrecomputed(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -1045,7 +1042,6 @@ class ConstantKernelMatrix(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -1260,7 +1256,6 @@ class KernelSet(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -1444,7 +1439,6 @@ class CompositeKernel(ABC):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
-- 
2.43.0


From 7d492212e974e6d8132e5d46f0b52dd98b832f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 05/14] fix: empty selection from ConstantKernelMatrix raised
 NameError, not KMAccessError

---
 kernelmethods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 09492ab..8a52bb6 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1026,7 +1026,7 @@ class ConstantKernelMatrix(object):
 
         # slice object returns empty list if all specified are out of range
         if len(indices) == 0:
-            raise KMAccessError('No samples were selected in dim {}'.format(dim))
+            raise KMAccessError('No samples were selected!')
 
         # removing duplicates and sorting
         indices = sorted(list(set(indices)))
-- 
2.43.0


From ef0eb13e4df2ada8a0e803e47f1f0a165eb515db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 06/14] fix: not_symmetric() must not accept non-square
 matrices

A constant 1 x N matrix was considered symmetric due to broadcasting, and
accepted as a precomputed kernel matrix.
---
 kernelmethods/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 779354d..de8c394 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -135,7 +135,8 @@ def _ensure_min_eps(x):
 def not_symmetric(matrix):
     """Returns true if the input matrix is not symmetric."""
 
-    if not np.isclose(matrix, matrix.T).all():
+    # a single row/column would otherwise be broadcast against its transpose
+    if matrix.shape != matrix.T.shape or not np.isclose(matrix, matrix.T).all():
         return True
     else:
         return False
-- 
2.43.0


From bcdd7117befb45b250ecb376a42aea378155ba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 07/14] fix: KernelSet could not be initialized with a single
 precomputed ndarray

It was iterated over row by row, although ndarray is listed as a valid type
for a kernel matrix.
---
 kernelmethods/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 8a52bb6..5c84594 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1096,7 +1096,9 @@ class KernelSet(object):
             self._is_init = False
             self._num_samples = None
 
-        if (not isinstance(km_list, str)) and isinstance(km_list, Iterable):
+        if isinstance(km_list, np.ndarray) and km_list.ndim == 2:
+            self.append(km_list)  # a single matrix, not an iterable of its rows
+        elif (not isinstance(km_list, str)) and isinstance(km_list, Iterable):
             for km in km_list:
                 self.append(km)
         elif isinstance(km_list, VALID_KERNEL_MATRIX_TYPES):
-- 
2.43.0


From 4d696d091e58d6626935220ee171d4c2885181b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 08/14] fix: KernelSet.set_attr must accept a single value for
 all, as documented

---
 kernelmethods/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 5c84594..3f8cf2b 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1341,6 +1341,8 @@ class KernelSet(object):
 
         if not isinstance(values, Iterable) or isinstance(values, str):
             values = [values] * self.size
+        elif len(values) == 1:
+            values = list(values) * self.size
         elif len(values) != self.size:
             raise ValueError('Values must be single element, or '
                              'of the same size as this KernelSet ({}), '
-- 
2.43.0


From f841b096a485ae277745c8663dc4830fb9f39f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 09/14] fix: normalize() ignored the requested method when
 attached to two samples

---
 kernelmethods/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 3f8cf2b..38d8a2e 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -499,7 +499,8 @@ class KernelMatrix(object):
                 # diagonal
                 self._normed_km = normalize_km_2sample(self._full_km,
                                                        KM_XX.diagonal(),
-                                                       KM_YY.diagonal())
+                                                       KM_YY.diagonal(),
+                                                       method=method)
             self._is_normed = True
 
             if contains_nan_inf(self._normed_km):
-- 
2.43.0


From a458d7585e2d5d051df1dfc4e76097ff1bd50e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 10/14] fix: kernel values on fixed-width integer data were
 wrong due to wrap-around

e.g. Laplacian and Gaussian kernels were not even symmetric on uint8 data.
---
 kernelmethods/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index de8c394..b15c86d 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -35,6 +35,11 @@ def check_input_arrays(x, y, ensure_dtype=np.number):
         raise ValueError('x (n={}) and y (n={}) differ in size! '
                          'They must be of same length'.format(x.size, y.size))
 
+    if ensure_dtype is np.number:
+        # fixed-width integers wrap around silently, esp. unsigned ones
+        x, y = [arr.astype(np.float64) if np.issubdtype(arr.dtype, np.integer)
+                else arr for arr in (x, y)]
+
     return x, y
 
 
-- 
2.43.0


From 0c0e5bd92f5372a74bc0b9cbff615214a62e41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:28 +0000
Subject: [PATCH 11/14] fix: OptimalKernelSVC/SVR raised TypeError with
 method='align/corr'

The estimator name, relevant only for CV, was passed on to
alignment_centered().
---
 kernelmethods/ranking.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index a360b9c..5d1c4b2 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -140,6 +140,10 @@ def alignment_ranking(kernel_bucket, targets, **method_params):
 
     """
 
+    # relevant only for the methods based on CV
+    for cv_param in ('num_folds', 'estimator_name'):
+        method_params.pop(cv_param, None)
+
     targets = np.asarray(targets)
     target_kernel = np.outer(targets, targets)
     method_params.setdefault('value_if_zero_division', 0.0)
-- 
2.43.0


From d32a35e029ff64b0dcc9903e1a733d0e727e39ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:22 +0000
Subject: [PATCH 12/14] fix: kernels resulting in NaN must not be chosen as
 optimal, or break the search

np.argmax picks the first NaN, so the kernel whose alignment could not be
computed was returned as the optimal one, and ranking the default bucket
via CV failed as soon as one kernel matrix was not finite.
---
 kernelmethods/ranking.py | 9 +++++++--
 kernelmethods/utils.py   | 5 +++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index 5d1c4b2..6768d35 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -12,7 +12,7 @@ import numpy as np
 from kernelmethods import config as cfg
 from kernelmethods.operations import alignment_centered
 from kernelmethods.sampling import KernelBucket
-from kernelmethods.utils import min_max_scale
+from kernelmethods.utils import contains_nan_inf, min_max_scale
 
 
 def find_optimal_kernel(kernel_bucket, sample, targets, method='cv_risk',
@@ -52,7 +52,8 @@ def find_optimal_kernel(kernel_bucket, sample, targets, method='cv_risk',
     kernel_bucket.attach_to(sample=sample)
     metric = rank_kernels(kernel_bucket, targets, method=method, **method_params)
 
-    return kernel_bucket[np.argmax(metric)]
+    # kernels that could not be scored (NaN) must not be chosen as optimal
+    return kernel_bucket[np.nanargmax(metric)]
 
 
 def rank_kernels(kernel_bucket, targets, method='align/corr', **method_params):
@@ -120,6 +121,10 @@ def CV_ranking(kernel_bucket, targets, num_folds=3, estimator_name='SVM'):
 
     cv_scores = list()
     for km in kernel_bucket:
+        if contains_nan_inf(km.full):
+            cv_scores.append(np.nan)  # no estimator can be trained with this
+            continue
+
         estimator, param_grid = get_estimator(estimator_name)
         gs = GridSearchCV(estimator=estimator,
                           param_grid=param_grid,
diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index b15c86d..7e86421 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -161,8 +161,9 @@ def min_max_scale(array):
     """Rescale the array values from 0 to 1 via min-max normalization."""
 
     array = np.array(array)
-    min_val = array.min()
-    spread = np.max(array) - min_val
+    # missing values (NaN), if any, do not affect the range
+    min_val = np.nanmin(array)
+    spread = np.nanmax(array) - min_val
     if np.isclose(spread, 0.0):
         return np.zeros_like(array, dtype=np.float64)
     return (array - min_val) / spread
-- 
2.43.0


From 6f709d1179fc4bca95cd16add04317773e703920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:22 +0000
Subject: [PATCH 13/14] fix: OptimalKernelSVC/SVR must be trained with the
 optimal kernel found

The underlying SVC/SVR was left with its default RBF kernel, which was
applied on the rows of the optimal kernel matrix as if they were features.
---
 kernelmethods/algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 4c69fc8..27a59d0 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -355,6 +355,8 @@ class BaseOptimalKernelMachine(BaseEstimator):
 
         self.opt_kernel_ = self._find_optimal_kernel()
 
+        # without this, SVC/SVR would apply RBF kernel on rows of the kernel matrix
+        self.kernel = 'precomputed'
         super().fit(X=self.opt_kernel_.full, y=self._train_y,
                     sample_weight=sample_weight)
 
-- 
2.43.0


From 3b77cc9cf11f656dccce4afbf347ec249e8a5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:31 +0000
Subject: [PATCH 14/14] fix: scores that could not be computed must stay NaN
 when all others are equal

---
 kernelmethods/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 7e86421..7a30899 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -165,7 +165,8 @@ def min_max_scale(array):
     min_val = np.nanmin(array)
     spread = np.nanmax(array) - min_val
     if np.isclose(spread, 0.0):
-        return np.zeros_like(array, dtype=np.float64)
+        # all valid values are equal, missing ones stay missing
+        return np.where(np.isnan(array), np.nan, 0.0)
     return (array - min_val) / spread
 
 
-- 
2.43.0

