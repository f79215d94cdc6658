From 4b3541c15b12b1011032b060520dbdf895616637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 01/35] fix: scaling a sketch container used an undefined
 variable

---
 tt_sketch/sketch_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch_container.py b/tt_sketch/sketch_container.py
index fed61f3..9bc3c89 100644
--- a/tt_sketch/sketch_container.py
+++ b/tt_sketch/sketch_container.py
@@ -75,7 +75,7 @@ class SketchContainer:
         return self.__class__(Psi_cores_new, Omega_mats_new)
 
     def __mul__(self, other: float) -> SketchContainer:
-        new_Psi_cores = [Psi * other for Psi in new_Psi_cores]
+        new_Psi_cores = [Psi * other for Psi in self.Psi_cores]
         new_Omega_mats = [Omega * other for Omega in self.Omega_mats]
         return self.__class__(new_Psi_cores, new_Omega_mats)
 
-- 
2.43.0


From f09495cbe3c1b6eda2e0ebf9c0440dc0ffedb90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 02/35] fix: CPTensor.size was a method instead of a property

---
 tt_sketch/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 75fb187..b6511a2 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -685,6 +685,7 @@ class CPTensor(Tensor):
         self.rank = cores[0].shape[1]
         self.shape = tuple(C.shape[0] for C in cores)
 
+    @property
     def size(self) -> int:
         return sum(C.size for C in self.cores)
 
-- 
2.43.0


From 71316ae960e54afaedd1dc9398237a0f4c6210ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 03/35] fix: hmt_sketch(return_drm=True) raised NameError

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 4a79abf..b6c4fd2 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -73,7 +73,7 @@ def hmt_sketch(
 
     sketched = TensorTrain(sketch.Psi_cores)
     if return_drm:  # this really is mostly for testing purposes
-        return sketched, drm, right_drm  # type: ignore
+        return sketched, drm  # type: ignore
     else:
         return sketched
 
-- 
2.43.0


From 17121ff1ade747bd3b07f7a32a101800a11f076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 04/35] fix: TensorTrain.svdvals crashed for ranks larger than
 the dimensions allow

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index b6511a2..14ad90a 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -499,7 +499,7 @@ class TensorTrain(Tensor):
             else:
                 C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
 
-            U, S, _ = np.linalg.svd(C_mat)
+            U, S, _ = np.linalg.svd(C_mat, full_matrices=False)
             svdvals.append(S)
         svdvals = svdvals[::-1]
         return svdvals
-- 
2.43.0


From 04a120df9e5cfc196049a3fdfd756d90f6c348b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 05/35] fix: power_decay_tensor raised NameError

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 22d33a7..95d5d9e 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -46,7 +46,7 @@ def power_decay_tensor(
     unfolding decay with a power law."""
     # if seed is not None:
     #     np.random.seed(np.mod(seed, 2**32 - 1))
-    seq = SeedSequence(seed)
+    seq = np.random.SeedSequence(seed)
     A_seed = seq.generate_state(1)[0]
     A = random_normal(shape=shape, seed=A_seed)
     for mode in range(len(A.shape)):
-- 
2.43.0


From 6867193423a3822382f39b9c76382c6953faab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 06/35] fix: sqrt_tensor swapped the first two dimensions

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 95d5d9e..f12de64 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -33,7 +33,7 @@ def sqrt_tensor(shape: Tuple[int, ...], a=-0.2, b=2) -> npt.NDArray:
         return np.sqrt(np.abs(np.sum(X, axis=0)))
 
     vals = [np.linspace(a, b, s) for s in shape]
-    grid = np.stack(np.meshgrid(*vals))
+    grid = np.stack(np.meshgrid(*vals, indexing="ij"))
     X = sqrt_sum(grid)
     X /= np.linalg.norm(X)
     return X
-- 
2.43.0


From 1969949e32c15202196418d4c4a450782ffe02f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 07/35] fix: multiplying an MPO by a scalar changed the MPO
 itself

---
 tt_sketch/tt_gmres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index f02ae69..d209ad5 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -129,7 +129,7 @@ class MPO(Tensor, TTLinearMap):
         return cls(cores)
 
     def __mul__(self, other: float) -> MPO:
-        new_cores = self.cores
+        new_cores = list(self.cores)
         new_cores[0] = new_cores[0] * other
         return self.__class__(new_cores)
 
-- 
2.43.0


From 49ecd2dd224c14b244728b97593764eefe82db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 08/35] fix: transposed DRMs and sketches had the wrong shape
 and rank order

---
 tt_sketch/drm_base.py        |  7 +++----
 tt_sketch/sketch_dispatch.py | 12 +++++++-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index 8d35da0..e85d645 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -65,11 +65,10 @@ class DRM(ABC):
     @property
     def T(self):
         transposed = deepcopy(self)
+        # The ranks of a right DRM are stored in reversed order, so the stored
+        # ranks are already those of the transposed DRM.
         transposed.transpose = not self.transpose
-        transposed.true_rank = transposed.true_rank[::-1]
-        transposed.rank_min = transposed.rank_min[::-1]
-        transposed.rank_max = transposed.rank_max[::-1]
-        transposed.rank = transposed.rank[::-1]
+        transposed.shape = self.shape[::-1]
         return transposed
 
     def __repr__(self) -> str:
diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index 40f937e..ecbbb08 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -218,8 +218,10 @@ def general_sketch(
     right_contractions = list(get_sketch_method(tensor, right_drm)(tensor))
 
     if left_drm is None:
-        # This is just required for shape information in the case of HMT
-        left_drm = right_drm.T
+        # In the case of HMT the left ranks are those of the right DRM
+        left_rank = right_drm.rank[::-1]
+    else:
+        left_rank = left_drm.rank
 
     Psi_cores: ArrayList = []
 
@@ -228,7 +230,7 @@ def general_sketch(
     if method != SketchMethod.hmt:
         omega_method = OMEGA_METHODS[type(tensor)]
         for mu in range(n_dims - 1):
-            omega_shape = (left_drm.rank[mu], right_drm.rank[::-1][mu])
+            omega_shape = (left_rank[mu], right_drm.rank[::-1][mu])
             Omega_mats.append(
                 omega_method(
                     left_contractions[mu],
@@ -240,7 +242,7 @@ def general_sketch(
             )
 
     if method in (SketchMethod.hmt, SketchMethod.orthogonal):
-        left_psi_drm = OrthogTTDRM(left_drm.rank, tensor)
+        left_psi_drm = OrthogTTDRM(left_rank, tensor)
 
     # Compute Psi cores
     psi_method = PSI_METHODS[type(tensor)]
@@ -251,7 +253,7 @@ def general_sketch(
                 left_sketch = next(left_psi_drm)
             else:
                 left_sketch = left_contractions[mu - 1]
-            r1 = left_drm.rank[mu - 1]
+            r1 = left_rank[mu - 1]
         else:
             left_sketch = None
             r1 = 1
-- 
2.43.0


From 04e84917bd60de56c17504eb227168001f01f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 09/35] fix: sliced TensorTrainDRM ignored the slice for dense
 and Tucker tensors

---
 tt_sketch/drm/tensor_train_drm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index 985ce5c..f6b23c6 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -110,7 +110,7 @@ class TensorTrainDRM(
     def sketch_dense(self, tensor: DenseTensor) -> ArrayGenerator:
         n_dims = len(self.shape)
         partial_contraction = self.cores[0].reshape(-1, self.cores[0].shape[-1])
-        yield partial_contraction.T
+        yield partial_contraction.T[self.rank_min[0] : self.rank_max[0]]
         for mu in range(1, n_dims - 1):
             core = self.cores[mu]
             partial_contraction = np.einsum(
@@ -119,7 +119,7 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction.T
+            yield partial_contraction.T[self.rank_min[mu] : self.rank_max[mu]]
 
     @handle_transpose
     def sketch_tucker(self, tensor: TuckerTensor) -> ArrayGenerator:
@@ -128,9 +128,9 @@ class TensorTrainDRM(
             "ijk,jl->ilk", self.cores[0], tensor.factors[0].T
         )
         partial_contraction = partial_contraction.reshape(
-            tensor.rank[0], self.rank[0]
+            tensor.rank[0], self.cores[0].shape[-1]
         )
-        yield partial_contraction
+        yield partial_contraction[:, self.rank_min[0] : self.rank_max[0]]
 
         for mu in range(1, n_dims - 1):
             core_reduced = np.einsum(
@@ -142,4 +142,4 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction
+            yield partial_contraction[:, self.rank_min[mu] : self.rank_max[mu]]
-- 
2.43.0


From bcbbcdafed06a0285074b77894e64f4291380754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 10/35] fix: SparseSignDRM lost, misordered or overran its
 number of non-zeros per row

---
 tt_sketch/drm/sparse_sign_drm.py | 34 +++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index d38634e..28e50a0 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -1,3 +1,5 @@
+from __future__ import annotations
+
 from typing import Optional, Tuple, Union
 
 import numpy as np
@@ -5,7 +7,7 @@ from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign  # type: ignore
 from tt_sketch.drm_base import CanSlice, handle_transpose
 from tt_sketch.sketching_methods.abstract_methods import CansketchSparse
 from tt_sketch.tensor import SparseTensor
-from tt_sketch.utils import ArrayGenerator
+from tt_sketch.utils import ArrayGenerator, process_tt_rank
 
 
 class SparseSignDRM(CansketchSparse, CanSlice):
@@ -28,8 +30,34 @@ class SparseSignDRM(CansketchSparse, CanSlice):
     ) -> None:
         super().__init__(rank, shape, transpose, seed=seed, **kwargs)
         if num_non_zero_per_row is None:
-            num_non_zero_per_row = self.true_rank
-        self.nnz = num_non_zero_per_row
+            self.nnz = self.true_rank
+        else:
+            self.nnz = process_tt_rank(num_non_zero_per_row, shape, trim=False)
+            if transpose:  # same order as the ranks
+                self.nnz = self.nnz[::-1]
+            if any(n < 0 or n > r for n, r in zip(self.nnz, self.true_rank)):
+                raise ValueError(
+                    f"Number of non-zero entries {num_non_zero_per_row} must "
+                    f"lie between 0 and the rank {rank}."
+                )
+
+    def slice(
+        self, start_rank: Tuple[int, ...], end_rank: Tuple[int, ...]
+    ) -> SparseSignDRM:
+        if self.transpose:
+            true_rank, nnz = self.true_rank[::-1], self.nnz[::-1]
+        else:
+            true_rank, nnz = self.true_rank, self.nnz
+        return self.__class__(
+            rank=true_rank,
+            shape=self.shape,
+            transpose=self.transpose,
+            seed=self.seed,
+            num_non_zero_per_row=nnz,
+            rank_min=start_rank,
+            rank_max=end_rank,
+            true_rank=true_rank,
+        )
 
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
-- 
2.43.0


From 65f68e5ec96a9e982c3b59665e4e9388ad271864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 11/35] fix: gathering from a sparse tensor used stale entries
 after they were modified

---
 tt_sketch/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 14ad90a..2709056 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -4,7 +4,6 @@ from __future__ import annotations
 from abc import ABC, abstractmethod, abstractproperty
 from copy import deepcopy
 from dataclasses import dataclass
-from functools import cached_property
 from typing import (
     Iterable,
     List,
@@ -285,7 +284,7 @@ class SparseTensor(Tensor):
             out[i] = dic.get(ind, 0.0)
         return out
 
-    @cached_property
+    @property
     def dict(self) -> Dict[int, float]:
         dense_indices = np.ravel_multi_index(self.indices, self.shape)
         return {i: v for i, v in zip(dense_indices, self.entries)}
-- 
2.43.0


From ce030c1a8da2a2a9c9d9dbf697a43a3e406fe19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 12/35] fix: DenseGaussianDRM did not use its own seed and
 reseeded the global generator

---
 tt_sketch/drm/dense_gaussian_drm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tt_sketch/drm/dense_gaussian_drm.py b/tt_sketch/drm/dense_gaussian_drm.py
index 6d637f1..778c23a 100644
--- a/tt_sketch/drm/dense_gaussian_drm.py
+++ b/tt_sketch/drm/dense_gaussian_drm.py
@@ -47,12 +47,14 @@ class DenseGaussianDRM(
             dim_prod *= n
 
             # TODO: make this correctly work with rank_increase and random_normal
-            np.random.seed(seed)
-            seed_offset = hash(np.random.uniform(0, dim_prod))
-            np.random.seed(np.mod(self.seed + seed_offset, 2**32 - 1))
+            rng = np.random.RandomState(self.seed)
+            seed_offset = hash(rng.uniform(0, dim_prod))
+            rng = np.random.RandomState(
+                np.mod(self.seed + seed_offset, 2**32 - 1)
+            )
 
             # sketching_mat = random_normal(shape=(r, dim_prod), seed=seed)
-            sketching_mat = np.random.normal(size=(r, dim_prod))
+            sketching_mat = rng.normal(size=(r, dim_prod))
             sketching_mat = sketching_mat[self.rank_min[mu] : self.rank_max[mu]]
             self.sketching_mats.append(sketching_mat)
 
-- 
2.43.0


From 85bbe6a392a9fcab1a61c08731fbe8f616834577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 13/35] fix: SparseTensor.random reseeded the global random
 generator

---
 tt_sketch/tensor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 2709056..26efb4f 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -260,10 +260,9 @@ class SparseTensor(Tensor):
         """
         Generates a random sparse tensor with `nnz` non-zero gaussian entries
         """
-        if seed is not None:
-            np.random.seed(seed)
+        rng = np.random.RandomState(seed)
         total_size = np.prod(shape)
-        indices_flat = np.random.choice(total_size, size=nnz, replace=False)
+        indices_flat = rng.choice(total_size, size=nnz, replace=False)
         indices = np.unravel_index(indices_flat, shape)
         entries = random_normal(shape=(nnz,), seed=seed)
         return cls(shape, indices, entries)
-- 
2.43.0


From dd543e7c248250309e1c0bda369d4466cc6cfe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 14/35] fix: seeded sketches depended on the hash seed of the
 process

---
 tt_sketch/sketch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index b6c4fd2..ac6b385 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from typing import Dict, List, Optional, Sequence, Tuple, Type
+from zlib import crc32
 
 import numpy as np
 import numpy.typing as npt
@@ -129,7 +130,7 @@ def orthogonal_sketch(
             else:
                 right_drm_type = TensorTrainDRM
         right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
@@ -207,7 +208,7 @@ def stream_sketch(
         right_rank = process_tt_rank(
             right_rank, tensor.shape, trim=left_rank_bigger
         )
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
-- 
2.43.0


From 07ecc4995f4dbfcd481d2a1f26f165ff5ef9517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 15/35] fix: fast error between two zero tensors was nan

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 26efb4f..54bdca6 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -68,7 +68,7 @@ class Tensor(ABC):
             self_norm = self.norm()
             dot = self.dot(other)
             norm_sum = self_norm**2 + other_norm**2
-            error = np.sqrt(norm_sum) * np.sqrt(np.abs(1 - 2 * dot / norm_sum))
+            error = np.sqrt(np.abs(norm_sum - 2 * dot))
         else:
             error = np.linalg.norm(self.to_numpy() - other.to_numpy())
         if relative:
-- 
2.43.0


From e3feb21a97d7237f393cea35d7a8d277a2f9ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 16/35] fix: pairwise rounding did not round a sum of one
 tensor train

---
 tt_sketch/tt_gmres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index d209ad5..3c66592 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -281,6 +281,8 @@ def round_tt_sum(
         return tt.round(eps, max_rank)
     elif method == "pairwise":
         tt = tt_sum.tensors[0]
+        if tt_sum.num_summands == 1:
+            tt = tt.round(eps=eps, max_rank=max_rank)
         for t in tt_sum.tensors[1:]:
             tt = tt.add(t).round(eps=eps, max_rank=max_rank)
     elif method == "sketch":
-- 
2.43.0


From 4df5af070918a06a7dfb6b411fad9a9381e97d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 17/35] fix: lazy random matrices repeated rows for shapes with
 over 2^31 entries

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index a80f2d4..3217552 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -62,7 +62,7 @@ cpdef double[:] _inds_to_rand_double(
     cdef int n_dim = len(shape)
     cdef int rank = rank_max - rank_min
 
-    cdef int prod = shape[0]
+    cdef uint64 prod = shape[0]
     cdef int i
     cdef int j
     for i in range(1,n_dim):
-- 
2.43.0


From dcf7b9c3537def52f7bafae635ba285b7158ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 18/35] fix: lazy Gaussian entry could be infinite

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 3217552..9b28dd3 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -45,7 +45,8 @@ cdef uint_to_normal(double[:] nums):
     cdef int e
     cdef double x
     for i in range(N): #prange here messes stuff up when parallelizing
-        x = frexp(nums[i], &e) * 2 - 1
+        # add half a unit of resolution, so that x lies strictly between 0 and 1
+        x = frexp(nums[i], &e) * 2 - 1 + 2.0**-53
         x = scipy.special.cython_special.ndtri(x)
         nums[i] = x
 
-- 
2.43.0


From 5c7f49cde3cbbcf887d0c05f484306faf4510321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 19/35] fix: sparse sign matrix could be written out of bounds

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 9b28dd3..a8c82db 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -148,7 +148,7 @@ cdef short[:] _inds_to_sparse_sign(
         # randomly permute
         for j in range(nnz):
             # random int in [j,rank)
-            rand_num = <int>(uniform_nums[i*nnz+j]*(rank-j) + j) 
+            rand_num = j + <int>(uniform_nums[i*nnz+j]*(rank-j))
             temp = sparse_sign[i*rank+j]
             sparse_sign[i*rank+j] = sparse_sign[i*rank+rand_num]
             sparse_sign[i*rank+rand_num]=temp
-- 
2.43.0


From ab5c41627e8c5bdd5a51fbbcffd7cc1eab2e10a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 20/35] fix: increase_rank checked for the wrong capability of
 the DRMs

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index ac6b385..2e7be05 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -317,7 +317,7 @@ class SketchedTensorTrain(Tensor):
             new_right_rank, tensor.shape, trim=False
         )
         for drm in (self.left_drm, self.right_drm):
-            if not isinstance(drm, CanSlice):
+            if not isinstance(drm, CanIncreaseRank):
                 drm_name = drm.__class__.__name__
                 raise ValueError(
                     f"Increasing rank is not supported for DRM {drm_name}"
-- 
2.43.0


From f3561acfc888ce7893459571a723b4dd74b12f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 21/35] fix: an integer or list rank was rejected when a DRM
 was passed explicitly

---
 tt_sketch/sketch.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 2e7be05..c380ff3 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -64,6 +64,7 @@ def hmt_sketch(
         rank = process_tt_rank(rank, tensor.shape, trim=True)
         drm = drm_type(rank, transpose=True, shape=tensor.shape, seed=seed)
     else:
+        rank = process_tt_rank(rank, tensor.shape, trim=False)
         if tuple(drm.rank[::-1]) != rank:
             raise ValueError(
                 f"Right rank {rank} does not match the rank of the DRM "
@@ -117,7 +118,8 @@ def orthogonal_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
-        if left_drm.rank != left_rank:
+        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
+        if tuple(left_drm.rank) != left_rank:
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
                 f"{left_drm.rank}."
@@ -135,6 +137,7 @@ def orthogonal_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
+        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
         if tuple(right_drm.rank[::-1]) != right_rank:
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
@@ -193,7 +196,8 @@ def stream_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
-        if left_drm.rank != left_rank:
+        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
+        if tuple(left_drm.rank) != left_rank:
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
                 f"{left_drm.rank}."
@@ -213,6 +217,7 @@ def stream_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
+        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
         if tuple(right_drm.rank[::-1]) != right_rank:
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
-- 
2.43.0


From 701f64f37b33c2175e7dab53c1d2d813c3c3e2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 22/35] fix: seeded random numbers depended on the number of
 processors

---
 tt_sketch/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index f12de64..0ed0e54 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -1,6 +1,5 @@
 # %%
 import concurrent.futures
-import multiprocessing
 from functools import reduce
 from operator import mul
 from typing import Generator, List, Optional, Sequence, Tuple, Union
@@ -184,7 +183,9 @@ class MultithreadedRNG:
 
     def __init__(self, shape, seed=None, threads=None):
         if threads is None:
-            threads = multiprocessing.cpu_count()
+            # The result depends on the number of threads, so this number may
+            # not depend on the machine.
+            threads = 8
         self.threads = threads
 
         seq = np.random.SeedSequence(seed)
-- 
2.43.0


From acc4be756a0070e5a0b04ffdad722dbe7b8e9e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 23/35] fix: sketches of dense and Tucker tensors did not match
 those of other formats

---
 tt_sketch/sketching_methods/dense_sketch.py  | 17 ++++++++++-------
 tt_sketch/sketching_methods/tucker_sketch.py | 11 ++++++++---
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/tt_sketch/sketching_methods/dense_sketch.py b/tt_sketch/sketching_methods/dense_sketch.py
index 7d04138..ff44ff0 100644
--- a/tt_sketch/sketching_methods/dense_sketch.py
+++ b/tt_sketch/sketching_methods/dense_sketch.py
@@ -12,7 +12,9 @@ def sketch_omega_dense(
     mu: int,
     **kwargs
 ) -> npt.NDArray:
-    X_mat = matricize(tensor.data, range(mu + 1), mat_shape=True)
+    # right sketches are ordered by the reversed indices
+    right_modes = range(tensor.ndim - 1, mu, -1)
+    X_mat = matricize(tensor.data, right_modes, mat_shape=True).T
     return left_sketch @ X_mat @ rigth_sketch.T
 
 
@@ -27,7 +29,7 @@ def sketch_psi_dense(
     ndim = tensor.ndim
     tensor_data = tensor.data
     if left_sketch is None:
-        tensor_mat = matricize(tensor_data, 0, mat_shape=True)
+        tensor_mat = matricize(tensor_data, range(ndim - 1, 0, -1), mat_shape=True).T
         Psi = tensor_mat @ right_sketch.T
         Psi = Psi.reshape((1,) + Psi.shape)
     elif right_sketch is None:
@@ -36,11 +38,12 @@ def sketch_psi_dense(
         Psi = Psi.reshape(Psi.shape + (1,))
     else:
         # Compute order 3 tensorisation of X
-        tensor_ord3 = matricize(tensor_data, range(mu + 1), mat_shape=False)
-        tensor_ord3 = tensor_ord3.reshape(
-            np.prod(tensor_ord3.shape[:mu], dtype=int),
-            tensor_ord3.shape[mu],
-            tensor_ord3.shape[mu + 1],
+        # right sketches are ordered by the reversed indices
+        perm = tuple(range(mu + 1)) + tuple(range(ndim - 1, mu, -1))
+        tensor_ord3 = np.transpose(tensor_data, perm).reshape(
+            np.prod(tensor.shape[:mu], dtype=int),
+            tensor.shape[mu],
+            np.prod(tensor.shape[mu + 1 :], dtype=int),
         )
         Psi = np.einsum(
             "ij,jkl,ml->ikm",
diff --git a/tt_sketch/sketching_methods/tucker_sketch.py b/tt_sketch/sketching_methods/tucker_sketch.py
index 96f4645..ec7daa5 100644
--- a/tt_sketch/sketching_methods/tucker_sketch.py
+++ b/tt_sketch/sketching_methods/tucker_sketch.py
@@ -14,8 +14,9 @@ def sketch_omega_tucker(
     mu: int,
     **kwargs
 ):
-    mode = tuple(range(mu + 1))
-    core_mat = matricize(tensor.core, mode, mat_shape=True)
+    # right sketches are ordered by the reversed indices
+    right_modes = range(tensor.ndim - 1, mu, -1)
+    core_mat = matricize(tensor.core, right_modes, mat_shape=True).T
     return left_sketch.T @ core_mat @ right_sketch
 
 
@@ -29,7 +30,11 @@ def sketch_psi_tucker(
 ):
     left_dim = left_sketch.shape[0] if left_sketch is not None else 1
     right_dim = right_sketch.shape[0] if right_sketch is not None else 1
-    core_ord3 = tensor.core.reshape(left_dim, tensor.rank[mu], right_dim)
+    # right sketches are ordered by the reversed indices
+    perm = tuple(range(mu + 1)) + tuple(range(tensor.ndim - 1, mu, -1))
+    core_ord3 = np.transpose(tensor.core, perm).reshape(
+        left_dim, tensor.rank[mu], right_dim
+    )
     if left_sketch is None:
         Psi = np.einsum("ijk,kl->ijl", core_ord3, right_sketch)  # type: ignore
     elif right_sketch is None:
-- 
2.43.0


From 62792c57c0aa44508992d19a88a3a49f27cafc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 24/35] fix: seeded orthogonal sketches advanced the global
 random generator

---
 tt_sketch/sketch_dispatch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index ecbbb08..842cc66 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -179,7 +179,10 @@ class OrthogTTDRM:
 
     def __init__(self, rank, tensor):
         self.rank = rank
-        self.drm = TensorTrainDRM(rank, tensor.shape, transpose=False, cores=[])
+        # the cores are given, so the seed is not used
+        self.drm = TensorTrainDRM(
+            rank, tensor.shape, transpose=False, seed=0, cores=[]
+        )
         self.generator = None
         self.tensor = tensor
         self.sketch_method = get_sketch_method(tensor, self.drm)
-- 
2.43.0


From b2d7578079916b2bf546f4738926adf0b520dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 25/35] fix: TT-GMRES stopped on the squared residual and
 failed on zero residuals

---
 tt_sketch/tt_gmres.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 3c66592..e3a1c4a 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -355,6 +355,9 @@ def tt_sum_gmres(
     b_pr = precond(b) if precond is not None else b
 
     b_norm = b.norm()
+    if b_norm == 0:  # the solution is zero, and so is the residual
+        x0 = TensorTrain.zero(shape=A.in_shape, rank=1)
+        b_norm = 1.0
     initial_time = perf_counter()
     residual = b_pr - apply_A_pr(x0)
     residual_rounded = round_tt_sum(
@@ -362,7 +365,8 @@ def tt_sum_gmres(
     )
     residual_norm = residual_rounded.norm()
     beta = residual_norm
-    nu_list: List[TensorTrain] = [residual_rounded / beta]
+    nu_list: List[TensorTrain] = [residual_rounded / (beta if beta > 0 else 1)]
+    y = np.zeros(0)
     H_matrix = np.zeros((maxiter + 1, maxiter))
 
     history: Dict[str, Any] = defaultdict(list)
@@ -372,8 +376,10 @@ def tt_sum_gmres(
     history["step_time"].append(perf_counter() - initial_time)
 
     for j in range(maxiter):
+        if residual_norm / b_norm <= tolerance:
+            break
         current_time = perf_counter()
-        delta = tolerance / (residual_norm / beta)
+        delta = tolerance / (residual_norm / min(beta, b_norm))
         if verbose:
             logging.info(
                 f"Iteration {j + 1}/{maxiter}, residual norm: {residual_norm / b_norm:.4e}"
@@ -396,28 +402,32 @@ def tt_sum_gmres(
             w_sum, eps=delta, max_rank=max_rank, method=rounding_method
         )
         H_matrix[j + 1, j] = w_rounded.norm()
-        nu_list.append(w_rounded / H_matrix[j + 1, j])
+        breakdown = H_matrix[j + 1, j] == 0  # the Krylov space is exhausted
+        if not breakdown:
+            nu_list.append(w_rounded / H_matrix[j + 1, j])
         history["step_time"].append(perf_counter() - current_time)
 
         # Compute residual norm
         H_red = H_matrix[: j + 2, : j + 1]
         e1 = np.zeros(j + 2)
         e1[0] = beta
-        y, (residual_norm,), _, _ = np.linalg.lstsq(H_red, e1, rcond=None)
+        y = np.linalg.lstsq(H_red, e1, rcond=None)[0]
+        residual_norm = np.linalg.norm(H_red @ y - e1)
         history["step_time_with_res_norm"].append(perf_counter() - current_time)
-        history["residual_norm"].append(np.sqrt(residual_norm) / b_norm)
+        history["residual_norm"].append(residual_norm / b_norm)
         history["rank"].append(w_rounded.rank)
         history["w_norm"].append(H_matrix[j + 1, j])
         history["delta"].append(delta)
 
-        if residual_norm / b_norm < tolerance:
+        if breakdown:
             break
 
     # Compute final result and round
-    y = y[: j + 1]
-    nu_list = nu_list[: j + 1]
+    nu_list = nu_list[: len(y)]
     current_time = perf_counter()
-    result = x0 + TensorSum(nu_list) * y
+    result = TensorSum([x0])
+    if len(y) > 0:
+        result = result + TensorSum(nu_list) * y
     result_rounded = round_tt_sum(
         result,
         eps=None,
-- 
2.43.0


From 0b149287bf41f781dd622f5e93719cee3ebd6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 26/35] fix: experiments were run again after reopening the
 log, which a stop during saving could lose

---
 scripts/experiment_base.py | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index c5343e9..62c2805 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -1,14 +1,38 @@
 import time
+import os
 from functools import reduce
 from os.path import isfile
 from typing import Callable, Dict, Optional, Any
 
+import numpy as np
 import pandas as pd
 from tt_sketch.sketch import stream_sketch, orthogonal_sketch, hmt_sketch
 from tt_sketch.tensor import Tensor, TensorTrain
 from tt_sketch.tt_svd import tt_svd
 
 
+def _read_csv(filename: str) -> pd.DataFrame:
+    # only empty cells are missing values; 'None' is the value of a parameter
+    return pd.read_csv(
+        filename,
+        index_col=0,
+        keep_default_na=False,
+        na_values=[""],
+        float_precision="round_trip",
+    )
+
+
+def _as_key(value) -> str:
+    """Text identifying a parameter, the same before and after saving it."""
+    if isinstance(value, (bool, np.bool_)):
+        return str(value)
+    try:
+        number = float(value)
+    except (ValueError, TypeError):
+        return str(value)
+    return "" if np.isnan(number) else repr(number)
+
+
 class Experiment:
     data: pd.DataFrame
     filename: str
@@ -23,7 +47,7 @@ class Experiment:
         self.filename = filename
         if data is None:
             if isfile(filename) and not force_overwrite:
-                data = pd.read_csv(filename)
+                data = _read_csv(filename)
             else:
                 data = pd.DataFrame(columns=["name", "error", "time_taken"])
 
@@ -31,17 +55,20 @@ class Experiment:
 
     @classmethod
     def load(cls, filename):
-        data = pd.read_csv(filename)
+        data = _read_csv(filename)
         return cls(filename, data)
 
     def save(self):
-        self.data.to_csv(self.filename)
+        # never leave an incomplete file behind
+        temp_filename = f"{self.filename}.tmp"
+        self.data.to_csv(temp_filename)
+        os.replace(temp_filename, self.filename)
 
     def check_experiment_done(self, conds):
         masks = []
         for column, value in conds.items():
             try:
-                masks.append(self.data[column] == value)
+                masks.append(self.data[column].map(_as_key) == _as_key(value))
             except KeyError:
                 return False
         mask = reduce(lambda x, y: x & y, masks)
-- 
2.43.0


From 9d14411dd269f324a68ee2c7b9f4a2b49bf222b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 27/35] fix: a scaled Tucker tensor shared its list of factors
 with the original

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 54bdca6..4c5b4bf 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -780,7 +780,7 @@ class TuckerTensor(Tensor):
 
     def __mul__(self, other: float) -> TuckerTensor:
         new_core = self.core * other
-        return self.__class__(self.factors, new_core)
+        return self.__class__(list(self.factors), new_core)
 
     def __repr__(self) -> str:
         return (
-- 
2.43.0


From 09adb58938d27af106de9d77d234d56834c50ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 28/35] fix: trim ranks until they are admissible, also after
 100 sweeps

---
 tt_sketch/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 0ed0e54..8ffbc32 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -136,7 +136,7 @@ def trim_ranks(
         ranks_trimmed[i] = min(r, dim_left, dim_right)
     changed = True
     ranks_trimmed = [1] + ranks_trimmed + [1]
-    for _ in range(100):
+    while changed:
         changed = False
         for i, d in enumerate(dims):
             if ranks_trimmed[i + 1] > ranks_trimmed[i] * d:
@@ -145,8 +145,6 @@ def trim_ranks(
             if ranks_trimmed[i] > d * ranks_trimmed[i + 1]:
                 changed = True
                 ranks_trimmed[i] = d * ranks_trimmed[i + 1]
-        if not changed:
-            break
 
     return tuple(ranks_trimmed[1:-1])
 
-- 
2.43.0


From b0eb7bb04b29f3387b090e7290c64ed7a32f9793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 29/35] fix: products of numpy integer dimensions overflow when
 trimming ranks

---
 tt_sketch/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 8ffbc32..da6b1de 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -129,6 +129,7 @@ def trim_ranks(
     the requirements are all satisfied.
     """
     ranks_trimmed = list(ranks)
+    dims = tuple(int(d) for d in dims)  # products may exceed numpy integers
 
     for i, r in enumerate(ranks_trimmed):
         dim_left = reduce(mul, dims[: i + 1], 1)
-- 
2.43.0


From 34f5d3ddcc59bd61555c2f54aeb6f27f9a87a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 30/35] fix: pseudo-inverses of rank-deficient matrices kept
 singular values that are rounding errors

---
 tt_sketch/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index da6b1de..4f5351f 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -96,6 +96,8 @@ def dematricize(A, mode, shape):
 
 def right_mul_pinv(A, B, cond=None):
     """Compute numerically stable product ``A@np.linalg.pinv(B)``"""
+    if cond is None:  # rounding errors make no contribution to the inverse
+        cond = max(B.shape) * np.finfo(np.float64).eps
     lstsq = scipy.linalg.lstsq(B.T, A.T, cond=cond)
 
     return lstsq[0].T
@@ -103,6 +105,8 @@ def right_mul_pinv(A, B, cond=None):
 
 def left_mul_pinv(A, B, cond=None):
     """Compute numerically stable product ``np.linalg.pinv(A)@B``"""
+    if cond is None:  # rounding errors make no contribution to the inverse
+        cond = max(A.shape) * np.finfo(np.float64).eps
     lstsq = scipy.linalg.lstsq(A, B, cond=cond)
 
     return lstsq[0]
-- 
2.43.0


From 179c0610ae275dcc0979d889144ef1214aaa8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 31/35] fix: the root mean square error overflowed for tensors
 with more than 2^63 entries

---
 tt_sketch/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 4c5b4bf..5d42e2d 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -76,7 +76,7 @@ class Tensor(ABC):
                 return np.inf
             error /= other_norm
         if rmse:
-            error /= np.sqrt(np.prod(self.shape))
+            error /= np.sqrt(np.prod(self.shape, dtype=float))
         return error
 
     @property
@@ -601,7 +601,7 @@ class TensorTrain(Tensor):
                     return np.inf
                 error /= other_norm
             if rmse:
-                error /= np.sqrt(np.prod(self.shape))
+                error /= np.sqrt(np.prod(self.shape, dtype=float))
             return error
         else:
             return super().error(other, relative=relative, rmse=rmse, fast=fast)
-- 
2.43.0


From 2994e841291d1264c2fb61cd0069d5d7f4e58bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 32/35] fix: gathering tensor-train entries at negative or
 out-of-bounds indices gave zeros

---
 tt_sketch/tensor.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 5d42e2d..d6cc498 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -419,10 +419,8 @@ class TensorTrain(Tensor):
         by multiplying the slices of each core corresponding to each index (in
         a left-to-right fashion).
         """
-        if not isinstance(idx, np.ndarray):
-            idx_array = np.stack(idx)
-        else:
-            idx_array = np.array(idx)
+        # Negative indices count from the end, indices out of bounds are errors
+        idx_array = np.stack([np.arange(n)[i] for n, i in zip(self.shape, idx)])
         N = idx_array.shape[1]
         result = np.take(
             self[0].reshape(self[0].shape[1:]), idx_array[0], axis=0
-- 
2.43.0


From a98c1c7682cda20e54ebac5e1ab004a88e48672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:16 +0000
Subject: [PATCH 33/35] fix: entries of a CP tensor whose first factor holds
 integers

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index d6cc498..9b96970 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -725,7 +725,7 @@ class CPTensor(Tensor):
 
         res = 1
         for C, id in zip(self.cores, idx):
-            res *= C[id]
+            res = res * C[id]
         return np.sum(res, axis=1)
 
     def __repr__(self) -> str:
-- 
2.43.0


From b643330617944244110f45936aa84b6dea3a46d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:06 +0000
Subject: [PATCH 34/35] fix: projector of rank-deficient matrices does not
 invert rounding errors

---
 tt_sketch/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 4f5351f..19c2a1d 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -117,7 +117,13 @@ def projector(X: npt.NDArray, Y: Optional[npt.NDArray] = None) -> npt.NDArray:
     if Y is None:
         Y = X
 
-    P = X @ np.linalg.pinv(Y.T @ X) @ Y.T
+    YX = Y.T @ X
+    # rounding errors make no contribution to the inverse
+    eps = max(X.shape) * np.finfo(np.float64).eps
+    size = np.linalg.norm(YX, 2)
+    if size > 0:
+        eps *= np.linalg.norm(X, 2) * np.linalg.norm(Y, 2) / size
+    P = X @ np.linalg.pinv(YX, rcond=eps) @ Y.T
     return P
 
 
-- 
2.43.0


From 45a06fa1455814a2e66f735b50da226025a97d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:17 +0000
Subject: [PATCH 35/35] fix: rank trimming of NumPy integer ranks whose
 products exceed 64 bits

---
 tt_sketch/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 19c2a1d..d348b99 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -138,8 +138,11 @@ def trim_ranks(
     iteratively reduced  for each edge to satisfy these two requirements until
     the requirements are all satisfied.
     """
-    ranks_trimmed = list(ranks)
-    dims = tuple(int(d) for d in dims)  # products may exceed numpy integers
+    # products may exceed numpy integers
+    ranks_trimmed = [
+        int(r) if isinstance(r, np.integer) else r for r in ranks
+    ]
+    dims = tuple(int(d) for d in dims)
 
     for i, r in enumerate(ranks_trimmed):
         dim_left = reduce(mul, dims[: i + 1], 1)
-- 
2.43.0

