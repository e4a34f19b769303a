From 8f6a2e554ebc29feecc157291064e280716024ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:50 +0000
Subject: [PATCH 01/37] fix: use a boolean mask when filtering the sampled
 basis

With recent PyTorch versions assigning a single element through a byte mask
raises a RuntimeError, so layers with only one basis element in a block could
not be built at all.
---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index 53d4ea2..97151f6 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -57,11 +57,8 @@ class SingleBlockBasisExpansion(BasisExpansion):
         # and filter out the basis elements discarded by the filter
         sampled_basis = torch.Tensor(basis.sample_masked(points, mask=mask)).permute(2, 0, 1, 3)
 
-        # DEPRECATED FROM PyTorch 1.2
-        # PyTorch 1.2 suggests using BoolTensor instead of ByteTensor for boolean indexing
-        # but BoolTensor have been introduced only in PyTorch 1.2
-        # Hence, for the moment we use ByteTensor
-        mask = mask.astype(np.uint8)
+        # indexing with a ByteTensor is deprecated since PyTorch 1.2 and recent versions refuse to assign a single
+        # element through it, so the mask needs to be a BoolTensor
         mask = torch.tensor(mask)
 
         # normalize the basis
@@ -77,7 +74,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
         sampled_basis = sampled_basis[norms, ...]
         
         full_mask = torch.zeros_like(mask)
-        full_mask[mask] = norms.to(torch.uint8)
+        full_mask[mask] = norms
         self._mask = full_mask
 
         self.attributes = [attr for b, attr in enumerate(attributes) if norms[b]]
-- 
2.43.0


From b5dea33c13adc87eacfe955ae6e2a907ad598082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:50 +0000
Subject: [PATCH 02/37] fix: load_cache actually fills the in-memory PDO cache

The loaded dictionary was bound to a local variable, so loading had no effect
and a following store_cache overwrote the file without the loaded entries.
---
 e2cnn/diffops/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/diffops/utils.py b/e2cnn/diffops/utils.py
index 8a0ffe5..8d4b057 100644
--- a/e2cnn/diffops/utils.py
+++ b/e2cnn/diffops/utils.py
@@ -40,7 +40,7 @@ def load_cache(path: str = "./.e2cnn_cache/diffops.pickle"):
     if os.path.exists(path):
         print("Loading cached Diffops")
         with open(path, "rb") as f:
-            _DIFFOP_CACHE = pickle.load(f)
+            _DIFFOP_CACHE.update(pickle.load(f))
     else:
         print("Diffop cache not found, skipping")
 
-- 
2.43.0


From 7f3f10deaf0dddf528a56818caec9d215b973ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:15 +0000
Subject: [PATCH 03/37] fix: store the PDO cache atomically

The file was truncated and rewritten in place, so a crash or a full disk while
storing left a torn pickle behind, which every later load_cache failed on. A
path without a directory component is accepted too.
---
 e2cnn/diffops/utils.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/e2cnn/diffops/utils.py b/e2cnn/diffops/utils.py
index 8d4b057..9ecb725 100644
--- a/e2cnn/diffops/utils.py
+++ b/e2cnn/diffops/utils.py
@@ -1,6 +1,7 @@
 
 from typing import List, Union, Iterable, Tuple
 import os
+import uuid
 import warnings
 import pickle
 
@@ -55,10 +56,21 @@ def store_cache(path: str = "./.e2cnn_cache/diffops.pickle"):
         path (str, optional): the path to the file with discretizations.
         
     """
-    directory = os.path.dirname(path)
+    directory = os.path.dirname(path) or "."
     os.makedirs(directory, exist_ok=True)
-    with open(path, "w+b") as f:
-        pickle.dump(_DIFFOP_CACHE, f)
+    # write to a temporary file first and only replace the cache once its new content is completely on disk,
+    # such that a failure while storing never damages the content which was stored before
+    tmp_path = "{}.{}.tmp".format(path, uuid.uuid4().hex)
+    try:
+        with open(tmp_path, "xb") as f:
+            pickle.dump(_DIFFOP_CACHE.copy(), f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_path, path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
 
 
 def discretize_homogeneous_polynomial(
-- 
2.43.0


From 35c2a0052860ec5a1f55742256ba1b401c00151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:15 +0000
Subject: [PATCH 04/37] fix: keep PDO cache entries apart and out of the
 caller's reach

Arrays of different dtype with the same bytes shared one entry, and the cached
array itself was handed out, so modifying a result changed all later ones.
---
 e2cnn/diffops/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/e2cnn/diffops/utils.py b/e2cnn/diffops/utils.py
index 9ecb725..90aced3 100644
--- a/e2cnn/diffops/utils.py
+++ b/e2cnn/diffops/utils.py
@@ -96,9 +96,11 @@ def discretize_homogeneous_polynomial(
 
     targets = np.array([[0, 0]])
 
-    key = (points.tobytes(), coefficients.tobytes(), smoothing, phi, method)
+    # the raw bytes identify an array only together with its type
+    key = (points.dtype.str, points.tobytes(), coefficients.dtype.str, coefficients.tobytes(), smoothing, phi, method)
     if key in _DIFFOP_CACHE:
-        return _DIFFOP_CACHE[key]
+        # return a copy, such that the caller can not change the content of the cache
+        return _DIFFOP_CACHE[key].copy()
 
     n = len(coefficients) - 1
 
@@ -177,7 +179,7 @@ def discretize_homogeneous_polynomial(
                          "Choices are 'fd', 'gauss' and 'rbffd'.")
 
     _DIFFOP_CACHE[key] = out
-    return out
+    return out.copy()
 
 
 def discretize_1d_monomial(n: int, points: List[float]) -> np.ndarray:
-- 
2.43.0


From 3d7a757a165c1e86e2b1be7524643ce28f69d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:04 +0000
Subject: [PATCH 05/37] fix: tell bases with different reflection axes apart

Bases for flips and rotations compared equal regardless of the axis, so a layer
built on a G-space with another axis in the same process received the cached
filters of the first one and was not equivariant. The PDO basis for flips and
discrete rotations was compared with the wrong class.
---
 e2cnn/diffops/irreps_basis.py | 6 +++---
 e2cnn/kernels/irreps_basis.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 2077fab..49c9d30 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -579,9 +579,9 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
         return attr
 
     def __eq__(self, other):
-        if not isinstance(other, R2DiscreteRotationsSolution):
+        if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -888,7 +888,7 @@ class R2FlipsContinuousRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index f4af163..493ee43 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -881,7 +881,7 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -1063,7 +1063,7 @@ class R2FlipsContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
-- 
2.43.0


From 2bbe4b25283766bdb069c973ee452b6f33a1ab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:46 +0000
Subject: [PATCH 06/37] fix: build the PDO basis which was asked for

The memory of the G-space and the equality of PDO bases ignored the maximum
power and the discretization, so a second R2Diffop with, for instance, another
angle_offset silently reused the stencils of the first one.
---
 e2cnn/diffops/basis.py           | 4 ++--
 e2cnn/diffops/steerable_basis.py | 2 ++
 e2cnn/gspaces/r2/general_r2.py   | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/e2cnn/diffops/basis.py b/e2cnn/diffops/basis.py
index e23ad7f..f34f726 100644
--- a/e2cnn/diffops/basis.py
+++ b/e2cnn/diffops/basis.py
@@ -195,7 +195,7 @@ class LaplaceProfile(DiffopBasis):
 
     def __eq__(self, other):
         if isinstance(other, LaplaceProfile):
-            return self.max_power == other.max_power
+            return self.max_power == other.max_power and self.disc == other.disc
         else:
             return False
 
@@ -284,7 +284,7 @@ class TensorBasis(DiffopBasis):
 
     def __eq__(self, other):
         if isinstance(other, TensorBasis):
-            return self.basis1 == other.basis1 and self.basis2 == other.basis2
+            return self.basis1 == other.basis1 and self.basis2 == other.basis2 and self.disc == other.disc
         else:
             return False
 
diff --git a/e2cnn/diffops/steerable_basis.py b/e2cnn/diffops/steerable_basis.py
index 1823bed..5a7f8b3 100644
--- a/e2cnn/diffops/steerable_basis.py
+++ b/e2cnn/diffops/steerable_basis.py
@@ -240,6 +240,8 @@ class SteerableDiffopBasis(DiffopBasis):
             return False
         elif self.in_repr != other.in_repr or self.out_repr != other.out_repr:
             return False
+        elif self.disc != other.disc:
+            return False
         else:
             sbk1 = sorted(self.irreps_bases.keys())
             sbk2 = sorted(other.irreps_bases.keys())
diff --git a/e2cnn/gspaces/r2/general_r2.py b/e2cnn/gspaces/r2/general_r2.py
index b0f6f8a..29c1b6d 100644
--- a/e2cnn/gspaces/r2/general_r2.py
+++ b/e2cnn/gspaces/r2/general_r2.py
@@ -185,6 +185,8 @@ class GeneralOnR2(GSpace):
         
         # build the key
         key = dict(**kwargs)
+        key["max_power"] = max_power
+        key["discretization"] = discretization
         key = tuple(sorted(key.items()))
 
         if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
-- 
2.43.0


From b24618871d2a6933f679b4fda20b957239f01cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:46 +0000
Subject: [PATCH 07/37] fix: do not share basis expansion modules between
 networks

All layers using the same basis shared one module instance, so converting one
network (e.g. with .double()) broke every other network in the process and all
the ones built later.
---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index 97151f6..56900e5 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -4,6 +4,8 @@ from .basisexpansion import BasisExpansion
 
 from typing import Callable, Dict, List, Iterable, Union
 
+import copy
+
 import torch
 import numpy as np
 
@@ -176,7 +178,11 @@ def block_basisexpansion(basis: Basis,
         if key not in _stored_filters:
             _stored_filters[key] = SingleBlockBasisExpansion(basis, points, basis_filter)
         
-        return _stored_filters[key]
+        # the sampled tensors are shared but each caller gets its own module. Indeed, converting or moving a network
+        # replaces the buffers of its modules and this should not affect the other networks using the same basis
+        block_expansion = copy.copy(_stored_filters[key])
+        block_expansion._buffers = block_expansion._buffers.copy()
+        return block_expansion
     
     else:
         return SingleBlockBasisExpansion(basis, points, basis_filter)
-- 
2.43.0


From 1c83c2e54b792ab56586e147b1f8f8d3679ed2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:14 +0000
Subject: [PATCH 08/37] fix: exported modules own their parameters

The exported module shared the storage of its weights with the equivariant one,
so training or loading a checkpoint in one of the two changed the other.
---
 e2cnn/nn/modules/batchnormalization/inner.py | 2 +-
 e2cnn/nn/modules/r2_conv/r2convolution.py    | 4 ++--
 e2cnn/nn/modules/r2_conv/r2diffop.py         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/inner.py b/e2cnn/nn/modules/batchnormalization/inner.py
index 145d36d..3c95a80 100644
--- a/e2cnn/nn/modules/batchnormalization/inner.py
+++ b/e2cnn/nn/modules/batchnormalization/inner.py
@@ -200,7 +200,7 @@ class InnerBatchNorm(EquivariantModule):
             
             batchnorm.running_var.data[start:end] = bn.running_var.data.view(n, 1).expand(n, s).reshape(-1)
             batchnorm.running_mean.data[start:end] = bn.running_mean.data.view(n, 1).expand(n, s).reshape(-1)
-            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data
+            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data.clone()
 
             if num_batches_tracked is None:
                 num_batches_tracked = bn.num_batches_tracked.data
diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 51c760b..016adb8 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -539,9 +539,9 @@ class R2Conv(EquivariantModule):
                                bias=has_bias)
 
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
         
         return conv
 
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 1b63ae2..8486810 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -644,9 +644,9 @@ class R2Diffop(EquivariantModule):
                                bias=has_bias)
 
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
         
         return conv
 
-- 
2.43.0


From 2702bee1bd5cdeef8b1a99580c5d998863c5ff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:14 +0000
Subject: [PATCH 09/37] fix: export the output_padding and ceil_mode settings

The exported transposed convolution and max pooling ignored them, so they did
not compute the same function as the exported module.
---
 e2cnn/nn/modules/pooling/pointwise_max.py             | 3 ++-
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index cbc9e92..22f7efb 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -138,7 +138,8 @@ class PointwiseMaxPool(EquivariantModule):
     
         self.eval()
     
-        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation,
+                                  ceil_mode=self.ceil_mode).eval()
 
 
 class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 2abfea9..2816f1a 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -369,6 +369,7 @@ class R2ConvTransposed(EquivariantModule):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
-- 
2.43.0


From 0fb4814e5a2ec13e6f64fb2fd4706518d60c5acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:44 +0000
Subject: [PATCH 10/37] fix: deterministic order of parameters and buffers

The unique representations of a field type were kept in a set, whose order
depends on the hash seed of the process. Two processes building the same network
disagreed on the order of the parameters, so optimizer states restored by index
or gradients averaged across processes ended up on the wrong parameters.
---
 e2cnn/nn/field_type.py               | 4 +++-
 e2cnn/nn/modules/branching_module.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index da617b9..90dbc23 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -82,7 +82,9 @@ class FieldType:
         # representations' size
         self.size = sum([repr.size for repr in representations])
 
-        self._unique_representations = set(self.representations)
+        # the order of the unique representations has to be the same in every process since it defines the order of
+        # parameters and buffers in the modules using this type (the one in a `set` depends on the hash of the names)
+        self._unique_representations = list(dict.fromkeys(self.representations))
         
         self._representation = None
         
diff --git a/e2cnn/nn/modules/branching_module.py b/e2cnn/nn/modules/branching_module.py
index 339b13a..bbf05a9 100644
--- a/e2cnn/nn/modules/branching_module.py
+++ b/e2cnn/nn/modules/branching_module.py
@@ -71,7 +71,7 @@ class BranchingModule(EquivariantModule):
         self.in_type = in_type
         self.reshuffle_layer = None
         
-        self._labels = set(labels)
+        self._labels = list(dict.fromkeys(labels))
         
         total_fields = len(in_type.representations)
         
-- 
2.43.0


From de5f86dae11c3cff2b26df2cd3eea339e5bbde26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:01 +0000
Subject: [PATCH 11/37] fix: build representations of O(2) induced from SO(2)

np.float has been removed from numpy: O2.induced_representation raised an
AttributeError.
---
 e2cnn/group/groups/o2group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 13051e9..06df144 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -445,7 +445,7 @@ class O2(Group):
             
             size = P.size
             
-            v = np.zeros((repr.size, size), dtype=np.float)
+            v = np.zeros((repr.size, size), dtype=float)
 
             def build_commuting_matrix(rho, t):
                 k = rho.attributes["frequency"]
-- 
2.43.0


From f3087d57bde5abbe85d6ad9f1627e62fb1df69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:29 +0000
Subject: [PATCH 12/37] fix: grow SO(2) and O(2) before announcing the new
 maximum frequency

An exception while the new irreps were being built left the shared group
claiming a maximum frequency whose irreps did not exist; asking again did not
build them.
---
 e2cnn/group/groups/o2group.py  | 8 ++++----
 e2cnn/group/groups/so2group.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 06df144..e5a6802 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -63,7 +63,7 @@ class O2(Group):
         self.identity = (0, 0.)
         self.reflection = (1, 0.)
         
-        self._build_representations()
+        self._build_representations(maximum_frequency)
     
     def inverse(self, element: Tuple[int, float]) -> Tuple[int, float]:
         r"""
@@ -319,7 +319,7 @@ class O2(Group):
         
         return change_of_basis, irreps
 
-    def _build_representations(self):
+    def _build_representations(self, maximum_frequency: int):
         r"""
         Build the irreps for this group
 
@@ -333,7 +333,7 @@ class O2(Group):
         self.irrep(j, k)
     
         j = 1
-        for k in range(self._maximum_frequency + 1):
+        for k in range(maximum_frequency + 1):
             self.irrep(j, k)
 
         # Build all Representations
@@ -524,8 +524,8 @@ class O2(Group):
         if _cached_group_instance is None:
             _cached_group_instance = O2(maximum_frequency)
         elif _cached_group_instance._maximum_frequency < maximum_frequency:
+            _cached_group_instance._build_representations(maximum_frequency)
             _cached_group_instance._maximum_frequency = maximum_frequency
-            _cached_group_instance._build_representations()
     
         return _cached_group_instance
 
diff --git a/e2cnn/group/groups/so2group.py b/e2cnn/group/groups/so2group.py
index 62e0542..ae2613a 100644
--- a/e2cnn/group/groups/so2group.py
+++ b/e2cnn/group/groups/so2group.py
@@ -46,7 +46,7 @@ class SO2(Group):
         
         self.identity = 0.
         
-        self._build_representations()
+        self._build_representations(maximum_frequency)
         
     def inverse(self, element: float) -> float:
         r"""
@@ -192,7 +192,7 @@ class SO2(Group):
         
         return change_of_basis, irreps
     
-    def _build_representations(self):
+    def _build_representations(self, maximum_frequency: int):
         r"""
         Build the irreps for this group
 
@@ -205,7 +205,7 @@ class SO2(Group):
         # add Trivial representation
         self.irrep(k)
     
-        for k in range(self._maximum_frequency + 1):
+        for k in range(maximum_frequency + 1):
             self.irrep(k)
     
         # Build all Representations
@@ -270,8 +270,8 @@ class SO2(Group):
         if _cached_group_instance is None:
             _cached_group_instance = SO2(maximum_frequency)
         elif _cached_group_instance._maximum_frequency < maximum_frequency:
+            _cached_group_instance._build_representations(maximum_frequency)
             _cached_group_instance._maximum_frequency = maximum_frequency
-            _cached_group_instance._build_representations()
     
         return _cached_group_instance
 
-- 
2.43.0


From 90c48ac97d54445af7454f0cd1a472cc27a6549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:23 +0000
Subject: [PATCH 13/37] fix: references to SO(2) and O(2) see the irreps built
 later

The subgroups SO(2) and O(2) of O(2) were built once with the maximum frequency
of that moment, so representations with irreps built afterwards could not be
restricted to them (KeyError). Irreps built by irrep() were missing from
Group.representations.
---
 e2cnn/group/groups/o2group.py  | 8 ++++++--
 e2cnn/group/groups/so2group.py | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index e5a6802..5b4a6bb 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -258,7 +258,8 @@ class O2(Group):
         if id[0] is not None and id[1] == -1:
             
             change_of_basis = np.eye(irr.size)
-            irreps.append(irr.name)
+            # the subgroup might have been built before this irrep
+            irreps.append(sg.irrep(irr.attributes["flip_frequency"], irr.attributes["frequency"]).name)
 
             if irr.size == 2:
                 f = irr.attributes["frequency"]
@@ -266,7 +267,8 @@ class O2(Group):
 
         elif id[0] is None and id[1] == -1:
             f = irr.attributes["frequency"]
-            irreps.append(f"irrep_{f}")
+            # the subgroup might have been built before this irrep
+            irreps.append(sg.irrep(f).name)
             change_of_basis = np.eye(irr.size)
             
         elif id[0] is not None and id[1] == 1:
@@ -414,6 +416,8 @@ class O2(Group):
                                                               flip_frequency=j
                                                               )
 
+        self.representations[name] = self.irreps[name]
+
         return self.irreps[name]
 
     def _induced_from_irrep(self, subgroup_id: Tuple[float, int],
diff --git a/e2cnn/group/groups/so2group.py b/e2cnn/group/groups/so2group.py
index ae2613a..d16567b 100644
--- a/e2cnn/group/groups/so2group.py
+++ b/e2cnn/group/groups/so2group.py
@@ -262,6 +262,8 @@ class SO2(Group):
                                                               character=character,
                                                               frequency=k)
 
+        self.representations[name] = self.irreps[name]
+
         return self.irreps[name]
 
     @staticmethod
-- 
2.43.0


From f5603910886dd507bb48cdcc8a121ae186c619f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:51 +0000
Subject: [PATCH 14/37] fix: build shared groups and representations only once
 with threads

The lookups in the registries of groups, irreps, representations and subgroups
were check-then-act: threads building networks at the same time could obtain
two instances of the same group or representation, or fail with 'A
representation ... already exists!'.
---
 e2cnn/group/group.py                |  4 ++++
 e2cnn/group/groups/cyclicgroup.py   |  3 +++
 e2cnn/group/groups/dihedralgroup.py |  3 +++
 e2cnn/group/groups/o2group.py       |  3 +++
 e2cnn/group/groups/so2group.py      |  3 +++
 e2cnn/group/utils.py                | 18 ++++++++++++++++++
 6 files changed, 34 insertions(+)

diff --git a/e2cnn/group/group.py b/e2cnn/group/group.py
index 1da3535..28ce4c6 100644
--- a/e2cnn/group/group.py
+++ b/e2cnn/group/group.py
@@ -5,6 +5,7 @@ from abc import ABC, abstractmethod
 from typing import Tuple, Callable, Iterable, List, Any, Dict
 
 import e2cnn.group
+from e2cnn.group.utils import synchronized
 import numpy as np
 from scipy import sparse
 
@@ -209,6 +210,7 @@ class Group(ABC):
         pass
 
     @property
+    @synchronized
     def regular_representation(self) -> e2cnn.group.Representation:
         r"""
         Builds the regular representation of the group if the group has a *finite* number of elements;
@@ -251,6 +253,7 @@ class Group(ABC):
                                                                              )
             return self.representations["regular"]
 
+    @synchronized
     def quotient_representation(self, subgroup_id) -> e2cnn.group.Representation:
         r"""
         Builds the quotient representation of the group with respect to the subgroup identified by the
@@ -297,6 +300,7 @@ class Group(ABC):
 
         return self.representations[name]
 
+    @synchronized
     def induced_representation(self, subgroup_id, repr: e2cnn.group.Representation) -> e2cnn.group.Representation:
         r"""
         Builds the induced representation from the input representation ``repr`` of the subgroup identified by
diff --git a/e2cnn/group/groups/cyclicgroup.py b/e2cnn/group/groups/cyclicgroup.py
index 0e5c266..9816401 100644
--- a/e2cnn/group/groups/cyclicgroup.py
+++ b/e2cnn/group/groups/cyclicgroup.py
@@ -111,6 +111,7 @@ class CyclicGroup(Group):
         else:
             return self.name == other.name and self.order() == other.order()
 
+    @utils.synchronized
     def subgroup(self, id: int) -> Tuple[Group, Callable, Callable]:
         r"""
         Restrict the current group to the cyclic subgroup :math:`C_M`.
@@ -234,6 +235,7 @@ class CyclicGroup(Group):
     def trivial_representation(self) -> Representation:
         return self.representations['irrep_0']
 
+    @utils.synchronized
     def irrep(self, k: int) -> IrreducibleRepresentation:
         r"""
         Build the irrep of frequency ``k`` of the current cyclic group.
@@ -288,6 +290,7 @@ class CyclicGroup(Group):
         return self.irreps[name]
 
     @staticmethod
+    @utils.synchronized
     def _generator(N: int) -> 'CyclicGroup':
         global _cached_group_instances
         if N not in _cached_group_instances:
diff --git a/e2cnn/group/groups/dihedralgroup.py b/e2cnn/group/groups/dihedralgroup.py
index c57589e..d3c419e 100644
--- a/e2cnn/group/groups/dihedralgroup.py
+++ b/e2cnn/group/groups/dihedralgroup.py
@@ -131,6 +131,7 @@ class DihedralGroup(Group):
         else:
             return self.name == other.name and self.rotation_order == other.rotation_order
     
+    @utils.synchronized
     def subgroup(self, id: Tuple[int, int]) -> Tuple[Group, Callable, Callable]:
         r"""
         Restrict the current group :math:`D_{2N}` to the subgroup identified by the input ``id``, where ``id`` is a
@@ -357,6 +358,7 @@ class DihedralGroup(Group):
     def trivial_representation(self) -> Representation:
         return self.representations['irrep_0,0']
 
+    @utils.synchronized
     def irrep(self, j: int, k: int) -> IrreducibleRepresentation:
         r"""
         Build the irrep with reflecion and rotation frequencies :math:`j` (reflection) and :math:`k` (rotation) of the
@@ -464,6 +466,7 @@ class DihedralGroup(Group):
         return self.irreps[name]
 
     @staticmethod
+    @utils.synchronized
     def _generator(N: int) -> 'DihedralGroup':
         global _cached_group_instances
         if N not in _cached_group_instances:
diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 5b4a6bb..e3b0b03 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -132,6 +132,7 @@ class O2(Group):
         else:
             return self.name == other.name and self._maximum_frequency == other._maximum_frequency
 
+    @utils.synchronized
     def subgroup(self, id: Tuple[float, int]) -> Tuple[Group, Callable, Callable]:
         r"""
         Restrict the current group :math:`O(2)` to the subgroup identified by the input ``id``, where ``id`` is a
@@ -347,6 +348,7 @@ class O2(Group):
     def trivial_representation(self) -> Representation:
         return self.representations['irrep_0,0']
 
+    @utils.synchronized
     def irrep(self, j: int, k: int) -> IrreducibleRepresentation:
         r"""
         Build the irrep with reflection and rotation frequencies :math:`j` (reflection) and :math:`k` (rotation) of the
@@ -523,6 +525,7 @@ class O2(Group):
                              f"by {subgroup_id} is not allowed.")
 
     @staticmethod
+    @utils.synchronized
     def _generator(maximum_frequency: int = 10) -> 'O2':
         global _cached_group_instance
         if _cached_group_instance is None:
diff --git a/e2cnn/group/groups/so2group.py b/e2cnn/group/groups/so2group.py
index d16567b..32f4e14 100644
--- a/e2cnn/group/groups/so2group.py
+++ b/e2cnn/group/groups/so2group.py
@@ -110,6 +110,7 @@ class SO2(Group):
         else:
             return self.name == other.name and self._maximum_frequency == other._maximum_frequency
 
+    @utils.synchronized
     def subgroup(self, id: int) -> Tuple[Group, Callable, Callable]:
         r"""
         Restrict the current group to the cyclic subgroup :math:`C_M` with order :math:`M` which is generated
@@ -217,6 +218,7 @@ class SO2(Group):
     def trivial_representation(self) -> Representation:
         return self.representations['irrep_0']
     
+    @utils.synchronized
     def irrep(self, k: int) -> IrreducibleRepresentation:
         r"""
         Build the irrep with rotational frequency :math:`k` of :math:`SO(2)`.
@@ -267,6 +269,7 @@ class SO2(Group):
         return self.irreps[name]
 
     @staticmethod
+    @utils.synchronized
     def _generator(maximum_frequency: int = 10) -> 'SO2':
         global _cached_group_instance
         if _cached_group_instance is None:
diff --git a/e2cnn/group/utils.py b/e2cnn/group/utils.py
index 5a81923..2c06750 100644
--- a/e2cnn/group/utils.py
+++ b/e2cnn/group/utils.py
@@ -1,6 +1,24 @@
 
 import numpy as np
 import math
+import functools
+import threading
+
+# protects the groups and the representations, which are built once and, then, shared
+_registry_lock = threading.RLock()
+
+
+def synchronized(function):
+    r"""
+    Decorator for the functions which look up an object in one of the registries and build it if it is missing.
+    It guarantees that, if multiple threads ask for the same object, it is built only once.
+    """
+    @functools.wraps(function)
+    def wrapper(*args, **kwargs):
+        with _registry_lock:
+            return function(*args, **kwargs)
+
+    return wrapper
 
 
 def psi(theta: float, k: int = 1, gamma: float = 0.):
-- 
2.43.0


From 5ad149acd8289a24ab96b9296ea7b7fe9f87bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:07 +0000
Subject: [PATCH 15/37] fix: building a finite group leaves numpy's print
 options alone

---
 e2cnn/group/representation.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 1647f25..c8e390e 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -723,8 +723,6 @@ def build_regular_representation(group: e2cnn.group.Group) -> Tuple[List[e2cnn.g
         
     change_of_basis = np.zeros((size, size))
     
-    np.set_printoptions(precision=4, threshold=10*size**2, suppress=False, linewidth=25*size + 5)
-    
     for e in group.elements:
         ev = P(e) @ v
         change_of_basis[index[e], :] = ev.T
-- 
2.43.0


From 59dd767cb8ba8697efedea32d77a747d2bf7e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:29 +0000
Subject: [PATCH 16/37] fix: do not keep or modify the caller's lists

GeometricTensor.split appended to the list passed by the caller, so the same
list could not be used twice; FieldType kept the caller's list, so editing the
list afterwards made the type inconsistent.
---
 e2cnn/nn/field_type.py       | 2 +-
 e2cnn/nn/geometric_tensor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index 90dbc23..ec6ccfd 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -74,7 +74,7 @@ class FieldType:
         self.gspace = gspace
         
         # list: List of representations of each feature field composing the feature space of this type
-        self.representations = representations
+        self.representations = list(representations)
         
         # int: size of the field associated to this type.
         # as the representation associated to the field is the direct sum of the representations
diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 457fb07..2a3c708 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -277,7 +277,7 @@ class GeometricTensor:
         if breaks is None:
             breaks = list(range(1, len(self.type)))
             
-        breaks.append(len(self.type))
+        breaks = list(breaks) + [len(self.type)]
         
         # final list of tensors
         tensors = []
-- 
2.43.0


From e55a8e168f3c408a5280d96305d2dfdf0e6a2af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:36 +0000
Subject: [PATCH 17/37] fix: FieldDropout drops whole fields in place and with
 p = 1

With inplace=True the fields which are not contiguous were copied by the
indexing and never dropped; with p=1 the output was NaN.
---
 e2cnn/nn/modules/dropout/field.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 9082c0d..5ad1eda 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -31,6 +31,10 @@ def dropout_field(input: torch.Tensor, p: float, training: bool, inplace: bool):
         
         mask = mask.uniform_() > p
         mask = mask.to(torch.float)
+
+        if p == 1.:
+            # all fields are dropped: there is nothing to rescale
+            p = 0.
         
         if inplace:
             input *= mask / (1. - p)
@@ -155,9 +159,12 @@ class FieldDropout(EquivariantModule):
             else:
                 # otherwise we have to use indexing
                 out = dropout_field(input[:, indices, ...].view(shape), self.p, self.training, self.inplace)
+                shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
                 if not self.inplace:
-                    shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
                     output[:, indices, ...] = out.view(shape)
+                else:
+                    # indexing made a copy, which has to be written back
+                    input[:, indices, ...] = out.view(shape)
             
         if self.inplace:
             output = input
-- 
2.43.0


From f5d2c25838164bd6491d854b62898adf643ea37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:36 +0000
Subject: [PATCH 18/37] fix: reset_parameters of batch norms without affine
 parameters

---
 e2cnn/nn/modules/batchnormalization/induced_norm.py | 7 ++++---
 e2cnn/nn/modules/batchnormalization/norm.py         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/induced_norm.py b/e2cnn/nn/modules/batchnormalization/induced_norm.py
index d3996ba..888b4da 100644
--- a/e2cnn/nn/modules/batchnormalization/induced_norm.py
+++ b/e2cnn/nn/modules/batchnormalization/induced_norm.py
@@ -152,9 +152,10 @@ class InducedNormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.fill_(1)
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
diff --git a/e2cnn/nn/modules/batchnormalization/norm.py b/e2cnn/nn/modules/batchnormalization/norm.py
index f952953..4bb22d0 100644
--- a/e2cnn/nn/modules/batchnormalization/norm.py
+++ b/e2cnn/nn/modules/batchnormalization/norm.py
@@ -139,9 +139,10 @@ class NormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.uniform_()
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.uniform_()
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From 193465838cb914d97489711a1e219c27d8e87ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:59 +0000
Subject: [PATCH 19/37] fix: discretised PDOs are aligned with the pixel grid

The finite difference stencils came out rotated by 90 degrees with respect to the points they were asked for, so an
R2Diffop was equivariant to reflections about the wrong axis.
---
 e2cnn/diffops/basis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/e2cnn/diffops/basis.py b/e2cnn/diffops/basis.py
index f34f726..1a9c968 100644
--- a/e2cnn/diffops/basis.py
+++ b/e2cnn/diffops/basis.py
@@ -144,6 +144,12 @@ class DiffopBasis(Basis):
                         method=self.disc.method,
                     )
 
+        if self.disc.method == "fd":
+            # the finite difference kernels are indexed by (x, y), with both coordinates increasing, while the points
+            # of the grid are sorted by decreasing y first and increasing x then
+            shape = len(np.unique(points[0])), len(np.unique(points[1]))
+            basis = np.rot90(basis.reshape(basis.shape[:-1] + shape), 1, (-2, -1)).reshape(basis.shape)
+
         # Finally, we move the len_basis axis to the third position
         basis = basis.transpose(1, 2, 0, 3)
 
-- 
2.43.0


From c4e17d510f0852877fb81460b263a2cc076632ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:50 +0000
Subject: [PATCH 20/37] fix: GNormBatchNorm accepts every layout of the change
 of basis' result

---
 e2cnn/nn/modules/batchnormalization/gnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/gnorm.py b/e2cnn/nn/modules/batchnormalization/gnorm.py
index 5dfbc52..1ad0dd5 100644
--- a/e2cnn/nn/modules/batchnormalization/gnorm.py
+++ b/e2cnn/nn/modules/batchnormalization/gnorm.py
@@ -257,9 +257,9 @@ class GNormBatchNorm(EquivariantModule):
                 normalized = torch.einsum("ds,bcsxy->bcdxy", (cob, normalized))
                 
             if not self._contiguous[name]:
-                output[:, indices, ...] = normalized.view(b, -1, h, w)
+                output[:, indices, ...] = normalized.reshape(b, -1, h, w)
             else:
-                output[:, indices[0]:indices[1], ...] = normalized.view(b, -1, h, w)
+                output[:, indices[0]:indices[1], ...] = normalized.reshape(b, -1, h, w)
 
             # if self._contiguous[name]:
             #     slice2 = output[:, indices[0]:indices[1], ...]
-- 
2.43.0


From c3e092fb5611436a7ffdcc64393561e035f38d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:24 +0000
Subject: [PATCH 21/37] fix: exported anti-aliased pooling owns its filter

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index 22f7efb..d0ca535 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -255,7 +255,7 @@ class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
 class FixedConv2D(torch.nn.Module):
     def __init__(self, filter:torch.Tensor, stride, _pad):
         super(FixedConv2D, self).__init__()
-        self._filter = filter
+        self._filter = filter.clone()
         self._stride = stride
         self._pad = _pad
 
-- 
2.43.0


From b53a165a4f82dc5e53d5c36ea45482f9da7f0ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:55 +0000
Subject: [PATCH 22/37] fix: buffers of basis expansions can be loaded from a
 checkpoint

The indices of interleaved fields were views with several elements in the same memory location, into which
load_state_dict can not write.
---
 e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
index 21e7b20..ba58993 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
@@ -138,8 +138,8 @@ class BlocksBasisExpansion(BasisExpansion):
 
             else:
                 out_indices, in_indices = torch.meshgrid([_out_indices[io_pair[1]], _in_indices[io_pair[0]]])
-                in_indices = in_indices.reshape(-1)
-                out_indices = out_indices.reshape(-1)
+                in_indices = in_indices.reshape(-1).contiguous()
+                out_indices = out_indices.reshape(-1).contiguous()
                 
                 # register the indices tensors and the bases tensors as parameters of this module
                 self.register_buffer('in_indices_{}'.format(io_pair), in_indices)
-- 
2.43.0


From 52f7048c0a8f026081abe2124eaf8fcbee08a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:32 +0000
Subject: [PATCH 23/37] fix: copies of SO(2) and O(2) stay equal to the shared
 group when it grows

A deep copy of a network contains copies of its group. As soon as a higher
frequency was requested anywhere in the process the copy compared unequal to
the group and the copied network rejected all its inputs.
---
 e2cnn/group/groups/o2group.py  | 2 +-
 e2cnn/group/groups/so2group.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index e3b0b03..7fbd484 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -130,7 +130,7 @@ class O2(Group):
         if not isinstance(other, O2):
             return False
         else:
-            return self.name == other.name and self._maximum_frequency == other._maximum_frequency
+            return self.name == other.name
 
     @utils.synchronized
     def subgroup(self, id: Tuple[float, int]) -> Tuple[Group, Callable, Callable]:
diff --git a/e2cnn/group/groups/so2group.py b/e2cnn/group/groups/so2group.py
index 32f4e14..c0d3adb 100644
--- a/e2cnn/group/groups/so2group.py
+++ b/e2cnn/group/groups/so2group.py
@@ -108,7 +108,7 @@ class SO2(Group):
         if not isinstance(other, SO2):
             return False
         else:
-            return self.name == other.name and self._maximum_frequency == other._maximum_frequency
+            return self.name == other.name
 
     @utils.synchronized
     def subgroup(self, id: int) -> Tuple[Group, Callable, Callable]:
-- 
2.43.0


From aba6a575b980e389b7a7c5060bcf4f72de4e11b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:34 +0000
Subject: [PATCH 24/37] fix: decompose a representation in the same way every
 time

The change of basis of the output of ConcatenatedNonLinearity was computed from
a random starting point, taken from numpy's global generator: networks built
from the same arguments were not interchangeable, a checkpoint did not fit the
network rebuilt in another process and the types of two equal layers differed.
The standard output was also left redirected if the computation failed.
---
 e2cnn/group/representation.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index c8e390e..de1f340 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -1088,7 +1088,9 @@ def null(A: Union[np.matrix, sparse.linalg.LinearOperator],
 
     """
     if use_sparse:
-        u, s, vh = slinalg.svds(A, k=min(A.shape) - 1)
+        # fix the starting vector, otherwise the solution depends on numpy's global random state
+        v0 = np.random.RandomState(0).randn(min(A.shape))
+        u, s, vh = slinalg.svds(A, k=min(A.shape) - 1, v0=v0)
     else:
         u, s, vh = linalg.svd(A)
     
@@ -1115,30 +1117,20 @@ def find_orthogonal_matrix(basis: np.ndarray, shape):
             anp.square(anp.dot(d.T, d) - anp.eye(*shape))
         )
     
-    problem = pymanopt.Problem(manifold=manifold, cost=cost)
+    problem = pymanopt.Problem(manifold=manifold, cost=cost, verbosity=0)
     
     # solver = TrustRegions(use_rand=True, miniter=10, mingradnorm=1e-10)
     # solver = ParticleSwarm(populationsize=500, maxcostevals=10000, logverbosity=0)
     # solver = ParticleSwarm(logverbosity=0)
     
-    import os, sys
-    
-    old_stdout = sys.stdout
-    sys.stdout = open(os.devnull, 'w')
-    #
-    # Xopt = solver.solve(problem)
-    # c = cost(Xopt)
-    # print('PSO, Final Error:', c)
-    #
-    # x = Xopt
-    
     solver = TrustRegions(mingradnorm=1e-10, logverbosity=0)
     
-    Xopt = solver.solve(problem)  # , x=x) #, Delta_bar=np.sqrt(basis.shape[1])*2)
+    # fix the starting point, such that the same representation is always decomposed in the same way
+    x = np.random.RandomState(0).randn(basis.shape[1])
     
-    c = cost(Xopt)
+    Xopt = solver.solve(problem, x=x)
     
-    sys.stdout = old_stdout  # sys.__stdout__
+    c = cost(Xopt)
     
     # print('TrustRegions, Final Error:', c)
     # print('Weights:', Xopt)
@@ -1196,7 +1188,8 @@ def compute_change_of_basis(representation: Dict[Any, np.matrix],
     else:
         
         # compute the basis of the kernel
-        if len(representation) > 10:
+        # (the sparse solver is not reliable for tiny matrices)
+        if len(representation) > 10 and M.shape[1] > 64:
             basis = null(M, True)
         else:
             basis = null(M.todense(), False)
-- 
2.43.0


From ec4ddc14389bd89b90c8c219d9f3ff487270a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:16 +0000
Subject: [PATCH 25/37] fix: loading a state dict does not overwrite the basis
 of other networks

The buffers of the cached expansions were shared, so an in-place change (e.g. by
load_state_dict) through one network changed all networks with the same layer
and those built later.
---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index 56900e5..95fda1a 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -178,10 +178,10 @@ def block_basisexpansion(basis: Basis,
         if key not in _stored_filters:
             _stored_filters[key] = SingleBlockBasisExpansion(basis, points, basis_filter)
         
-        # the sampled tensors are shared but each caller gets its own module. Indeed, converting or moving a network
-        # replaces the buffers of its modules and this should not affect the other networks using the same basis
+        # each caller gets its own module and its own buffers. Indeed, converting a network replaces the buffers of its
+        # modules, loading a state dict overwrites them and neither should affect the other networks using the same basis
         block_expansion = copy.copy(_stored_filters[key])
-        block_expansion._buffers = block_expansion._buffers.copy()
+        block_expansion._buffers = {name: buffer.clone() for name, buffer in block_expansion._buffers.items()}
         return block_expansion
     
     else:
-- 
2.43.0


From c17185b1e1e394c330803f63ccc35e98120355f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:46 +0000
Subject: [PATCH 26/37] fix: do not confuse the bases of different
 representations with the same name

directsum() gives the same name to sums which differ by their change of basis.
The second one used in a gspace got the basis of the first one and its
convolutions were not equivariant.
---
 e2cnn/gspaces/r2/general_r2.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/e2cnn/gspaces/r2/general_r2.py b/e2cnn/gspaces/r2/general_r2.py
index 29c1b6d..e59619b 100644
--- a/e2cnn/gspaces/r2/general_r2.py
+++ b/e2cnn/gspaces/r2/general_r2.py
@@ -114,16 +114,16 @@ class GeneralOnR2(GSpace):
         key["rings"] = tuple(rings)
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._basis_generator(in_repr, out_repr, rings, sigma, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
 
     def build_diffop_basis(self,
                            in_repr: Representation,
@@ -189,16 +189,16 @@ class GeneralOnR2(GSpace):
         key["discretization"] = discretization
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._diffop_basis_generator(in_repr, out_repr, max_power, discretization, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
     
     @abstractmethod
     def _basis_generator(self,
-- 
2.43.0


From c3fb622a507a9f80b24e14283c636b130da6f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:58 +0000
Subject: [PATCH 27/37] fix: a representation does not share its matrices with
 the caller

Representation kept references to the change of basis matrix and the list of
irreps it was given, so editing them afterwards corrupted the representation.
---
 e2cnn/group/representation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index de1f340..03baf20 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -144,6 +144,11 @@ class Representation:
         
         if change_of_basis_inv is None:
             change_of_basis_inv = sp.linalg.inv(change_of_basis)
+        
+        # the caller may edit its own arguments later
+        change_of_basis = change_of_basis.copy()
+        change_of_basis_inv = change_of_basis_inv.copy()
+        irreps = list(irreps)
 
         assert len(change_of_basis_inv.shape) == 2
         assert change_of_basis_inv.shape[0] == change_of_basis.shape[0]
@@ -173,7 +178,7 @@ class Representation:
         elif isinstance(representation, dict):
             assert set(representation.keys()) == set(self.group.elements), "Error! Keys don't match group's elements"
             
-            self._stored_representations = representation
+            self._stored_representations = dict(representation)
             representation = lambda e, repr=self: repr._stored_representations[e]
             
         elif not callable(representation):
@@ -186,7 +191,7 @@ class Representation:
             
             assert set(character.keys()) == set(self.group.elements), "Error! Keys don't match group's elements"
             
-            self._characters = character
+            self._characters = dict(character)
 
         elif callable(character):
             self._characters = character
-- 
2.43.0


From 52d74837c9500c35a9c0343704c3aa6adae989ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:29 +0000
Subject: [PATCH 28/37] fix: export layers with any padding mode on torch 2

The check for torch >= 1.5 looked at the minor version only, so exporting a
layer with a padding mode other than zeros raised ImportError on torch 2.0-2.4.
---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 2 +-
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 016adb8..ffa1845 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -511,7 +511,7 @@ class R2Conv(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 8486810..71bf220 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -616,7 +616,7 @@ class R2Diffop(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
-- 
2.43.0


From d96d03cd6399521e5d8e5167be7389a55232a304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:18 +0000
Subject: [PATCH 29/37] fix: MergeModule does not modify the list of modules it
 is given

---
 e2cnn/nn/modules/merge_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 5350d6e..77f0cc7 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -39,6 +39,9 @@ class MergeModule(EquivariantModule):
 
         super(MergeModule, self).__init__()
         
+        # do not modify the list of the caller
+        modules = [(m, list(l) if isinstance(l, list) else l) for m, l in modules]
+        
         labels = []
         
         for i in range(len(modules)):
-- 
2.43.0


From d9e5372ef0a2666ae092b9fd4b5cb3783a122031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:18 +0000
Subject: [PATCH 30/37] fix: MultipleModule.evaluate_output_shape

It passed a dictionary where keyword arguments are expected and always raised.
---
 e2cnn/nn/modules/multiple_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/multiple_module.py b/e2cnn/nn/modules/multiple_module.py
index b417951..5cdb067 100644
--- a/e2cnn/nn/modules/multiple_module.py
+++ b/e2cnn/nn/modules/multiple_module.py
@@ -126,7 +126,7 @@ class MultipleModule(EquivariantModule):
         
         branches_shapes = self.branching.evaluate_output_shape(input_shape)
         
-        out_shape = self.merging.evaluate_output_shape(branches_shapes)
+        out_shape = self.merging.evaluate_output_shape(**branches_shapes)
         
         return out_shape
 
-- 
2.43.0


From 9d0e953e97deb6106f8971796d6680594e2d5ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:03 +0000
Subject: [PATCH 31/37] fix: export upsampling to a given size

---
 e2cnn/nn/modules/r2upsampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/e2cnn/nn/modules/r2upsampling.py b/e2cnn/nn/modules/r2upsampling.py
index 7d82754..9a776f4 100644
--- a/e2cnn/nn/modules/r2upsampling.py
+++ b/e2cnn/nn/modules/r2upsampling.py
@@ -201,12 +201,14 @@ class R2Upsampling(EquivariantModule):
         
         if self._align_corners is not None:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
                 align_corners=self._align_corners
             )
         else:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
             )
-- 
2.43.0


From 066b474b087c12110ca2fd6e10da92e824e64022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:29 +0000
Subject: [PATCH 32/37] fix: PointwiseAvgPool.evaluate_output_shape used a
 dilation the module does not have

---
 e2cnn/nn/modules/pooling/pointwise_avg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_avg.py b/e2cnn/nn/modules/pooling/pointwise_avg.py
index ce26012..e69ed81 100644
--- a/e2cnn/nn/modules/pooling/pointwise_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_avg.py
@@ -101,9 +101,9 @@ class PointwiseAvgPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
-        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
+        # compute the output shape (see 'torch.nn.AvgPool2D')
+        ho = (hi + 2 * self.padding[0] - self.kernel_size[0]) / self.stride[0] + 1
+        wo = (wi + 2 * self.padding[1] - self.kernel_size[1]) / self.stride[1] + 1
         
         if self.ceil_mode:
             ho = math.ceil(ho)
-- 
2.43.0


From f7a922454437986cbfc41bc4df4f850b599f9f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:03 +0000
Subject: [PATCH 33/37] fix: FieldDropout dropped a field with p=0 when the
 generator returned exactly 0

---
 e2cnn/nn/modules/dropout/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 5ad1eda..30a1674 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -29,7 +29,7 @@ def dropout_field(input: torch.Tensor, p: float, training: bool, inplace: bool):
             device = input.device
             mask = torch.cuda.FloatTensor(*shape, device=device)
         
-        mask = mask.uniform_() > p
+        mask = mask.uniform_() >= p
         mask = mask.to(torch.float)
 
         if p == 1.:
-- 
2.43.0


From 3ece7e7a2acc1c0b3d23ec34daa878dcb7234b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:36 +0000
Subject: [PATCH 34/37] fix: equal basis expansions have the same hash

---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index 95fda1a..3e410c2 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -131,14 +131,17 @@ class SingleBlockBasisExpansion(BasisExpansion):
         if isinstance(other, SingleBlockBasisExpansion):
             return (
                     self.basis == other.basis and
+                    self.sampled_basis.shape == other.sampled_basis.shape and
+                    self.sampled_basis.dtype == other.sampled_basis.dtype and
                     torch.allclose(self.sampled_basis, other.sampled_basis) and
-                    (self._mask == other._mask).all()
+                    torch.equal(self._mask, other._mask)
             )
         else:
             return False
 
     def __hash__(self):
-        return 10000 * hash(self.basis) + 100 * hash(self.sampled_basis) + hash(self._mask)
+        # the hash of a tensor is its identity, but equal modules need to have the same hash
+        return 10000 * hash(self.basis) + 100 * hash(tuple(self.sampled_basis.shape)) + hash(tuple(self._mask.tolist()))
 
 
 # dictionary storing references to already built basis tensors
-- 
2.43.0


From 6f8a04636cc3add7e3c9b0eb1448f1aab603da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:35 +0000
Subject: [PATCH 35/37] fix: tell apart the representations of a type which
 have the same name

directsum() gives the same name to sums which differ by their change of basis.
If a field type contained two of them, convolutions, GNormBatchNorm and
DisentangleModule used the basis of one for both (and so were not equivariant)
and FieldType.restrict() returned another type.
---
 e2cnn/nn/field_type.py                        | 22 +++++++++++++--
 e2cnn/nn/modules/batchnormalization/gnorm.py  | 28 +++++++++----------
 e2cnn/nn/modules/disentangle_module.py        | 18 ++++++------
 .../modules/r2_conv/basisexpansion_blocks.py  | 24 ++++++++--------
 4 files changed, 54 insertions(+), 38 deletions(-)

diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index ec6ccfd..fbee49d 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -86,6 +86,24 @@ class FieldType:
         # parameters and buffers in the modules using this type (the one in a `set` depends on the hash of the names)
         self._unique_representations = list(dict.fromkeys(self.representations))
         
+        # different representations can have the same name (e.g. the direct sums which differ only by their change of
+        # basis); therefore, each different representation is identified by a label which is unique in this type
+        labels = {}
+        homonyms = {}
+        for repr in self._unique_representations:
+            others = homonyms.setdefault(repr.name, [])
+            for i, other in enumerate(others):
+                if repr.irreps == other.irreps and np.allclose(repr.change_of_basis, other.change_of_basis):
+                    break
+            else:
+                i = len(others)
+                others.append(repr)
+            labels[repr] = repr.name if i == 0 else f"{repr.name}#{i}"
+        
+        # the labels of the representations in `_unique_representations` and in `representations`
+        self._unique_labels = list(labels.values())
+        self._labels = [labels[repr] for repr in self.representations]
+        
         self._representation = None
         
         self._field_start = None
@@ -268,10 +286,10 @@ class FieldType:
         # restrict each different base representation in the fiber representation
         restricted_reprs = {}
         for r in self._unique_representations:
-            restricted_reprs[r.name] = self.gspace.fibergroup.restrict_representation(id, r)
+            restricted_reprs[r] = self.gspace.fibergroup.restrict_representation(id, r)
     
         # for each field, retrieve the corresponding restricted representation
-        fields = [restricted_reprs[r.name] for r in self.representations]
+        fields = [restricted_reprs[r] for r in self.representations]
     
         # build the restricted fiber representation
         rrepr = FieldType(subspace, fields)
diff --git a/e2cnn/nn/modules/batchnormalization/gnorm.py b/e2cnn/nn/modules/batchnormalization/gnorm.py
index 1ad0dd5..871adc1 100644
--- a/e2cnn/nn/modules/batchnormalization/gnorm.py
+++ b/e2cnn/nn/modules/batchnormalization/gnorm.py
@@ -68,21 +68,21 @@ class GNormBatchNorm(EquivariantModule):
         ntrivials = 0
         position = 0
         last_field = None
-        for i, r in enumerate(self.in_type.representations):
+        for r, name in zip(self.in_type.representations, self.in_type._labels):
             
             for irr in r.irreps:
                 if self.in_type.fibergroup.irreps[irr].is_trivial():
                     ntrivials += 1
             
-            if r.name != last_field:
-                if not r.name in self._contiguous:
-                    self._contiguous[r.name] = True
+            if name != last_field:
+                if not name in self._contiguous:
+                    self._contiguous[name] = True
                 else:
-                    self._contiguous[r.name] = False
+                    self._contiguous[name] = False
 
-            last_field = r.name
-            _indices[r.name] += list(range(position, position + r.size))
-            self._nfields[r.name] += 1
+            last_field = name
+            _indices[name] += list(range(position, position + r.size))
+            self._nfields[name] += 1
             position += r.size
         
         for name, contiguous in self._contiguous.items():
@@ -107,7 +107,7 @@ class GNormBatchNorm(EquivariantModule):
         # store for each field type the sizes and the indices of all its irreps, grouped by their size
         self._irreps_sizes = {}
         
-        for r in self.in_type._unique_representations:
+        for r, name in zip(self.in_type._unique_representations, self.in_type._unique_labels):
             p = 0
             irreps = defaultdict(lambda: [])
             trivials = []
@@ -125,8 +125,6 @@ class GNormBatchNorm(EquivariantModule):
             
             propagator = (aggregator > 0).clone().to(dtype=torch.float)
             
-            name = r.name
-            
             self._trivial_idxs[name] = torch.tensor(trivials, dtype=torch.long)
             self._irreps_sizes[name] = [(s, idxs) for s, idxs in irreps.items()]
             self._sizes.append((name, r.size))
@@ -138,14 +136,14 @@ class GNormBatchNorm(EquivariantModule):
             self.register_buffer(f'vars_aggregator_{name}', aggregator)
             self.register_buffer(f'vars_propagator_{name}', propagator)
         
-            running_var = torch.ones((self._nfields[r.name], len(r.irreps)), dtype=torch.float)
-            running_mean = torch.zeros((self._nfields[r.name], len(trivials)), dtype=torch.float)
+            running_var = torch.ones((self._nfields[name], len(r.irreps)), dtype=torch.float)
+            running_mean = torch.zeros((self._nfields[name], len(trivials)), dtype=torch.float)
             self.register_buffer(f'{name}_running_var', running_var)
             self.register_buffer(f'{name}_running_mean', running_mean)
             
             if self.affine:
-                weight = Parameter(torch.ones((self._nfields[r.name], len(r.irreps))), requires_grad=True)
-                bias = Parameter(torch.zeros((self._nfields[r.name], len(trivials))), requires_grad=True)
+                weight = Parameter(torch.ones((self._nfields[name], len(r.irreps))), requires_grad=True)
+                bias = Parameter(torch.zeros((self._nfields[name], len(trivials))), requires_grad=True)
                 self.register_parameter(f'{name}_weight', weight)
                 self.register_parameter(f'{name}_bias', bias)
             
diff --git a/e2cnn/nn/modules/disentangle_module.py b/e2cnn/nn/modules/disentangle_module.py
index a69688f..7d4ef2d 100644
--- a/e2cnn/nn/modules/disentangle_module.py
+++ b/e2cnn/nn/modules/disentangle_module.py
@@ -47,22 +47,22 @@ class DisentangleModule(EquivariantModule):
         _change_of_basis_matrices = {}
         self._sizes = {}
         
-        for r in self.in_type._unique_representations:
-            self._sizes[r.name] = r.size
+        for r, label in zip(self.in_type._unique_representations, self.in_type._unique_labels):
+            self._sizes[label] = r.size
             cob, reprs = disentangle(r)
-            disentangled_representations[r.name] = reprs
-            _change_of_basis_matrices[r.name] = torch.FloatTensor(cob)
-            self.register_buffer('change_of_basis_{}'.format(r.name), _change_of_basis_matrices[r.name])
+            disentangled_representations[label] = reprs
+            _change_of_basis_matrices[label] = torch.FloatTensor(cob)
+            self.register_buffer('change_of_basis_{}'.format(label), _change_of_basis_matrices[label])
 
         out_reprs = []
         self._nfields = defaultdict(int)
-        for r in self.in_type.representations:
-            self._nfields[r.name] += 1
-            out_reprs += disentangled_representations[r.name]
+        for label in self.in_type._labels:
+            self._nfields[label] += 1
+            out_reprs += disentangled_representations[label]
 
         self.out_type = FieldType(self.in_type.gspace, out_reprs)
 
-        grouped_indices = indexes_from_labels(self.in_type, [r.name for r in self.in_type.representations])
+        grouped_indices = indexes_from_labels(self.in_type, self.in_type._labels)
         
         self._order = []
         self._contiguous = {}
diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
index ba58993..065797a 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
@@ -68,9 +68,9 @@ class BlocksBasisExpansion(BasisExpansion):
         
         # iterate through all different pairs of input/output representationions
         # and, for each of them, build a basis
-        for i_repr in in_type._unique_representations:
-            for o_repr in out_type._unique_representations:
-                reprs_names = (i_repr.name, o_repr.name)
+        for i_repr, i_label in zip(in_type._unique_representations, in_type._unique_labels):
+            for o_repr, o_label in zip(out_type._unique_representations, out_type._unique_labels):
+                reprs_names = (i_label, o_label)
                 try:
                     basis = basis_generator(i_repr, o_repr, **kwargs)
                     
@@ -189,7 +189,7 @@ class BlocksBasisExpansion(BasisExpansion):
             in_irreps_count = 0
             for i, i_repr in enumerate(self._in_type.representations):
             
-                if reprs_names == (i_repr.name, o_repr.name):
+                if reprs_names == (self._in_type._labels[i], self._out_type._labels[o]):
                     
                     if block_count == block_idx:
 
@@ -206,7 +206,7 @@ class BlocksBasisExpansion(BasisExpansion):
                     
                         # build the ids of the basis vectors
                         # add names and indices of the input and output fields
-                        id = '({}-{},{}-{})'.format(i_repr.name, i, o_repr.name, o)
+                        id = '({}-{},{}-{})'.format(reprs_names[0], i, reprs_names[1], o)
                         # add the original id in the block submodule
                         id += "_" + attr["id"]
                     
@@ -230,13 +230,13 @@ class BlocksBasisExpansion(BasisExpansion):
         out_block_counts = defaultdict(list)
         for o, o_repr in enumerate(self._out_type.representations):
             out_irreps_counts.append(out_irreps_counts[-1] + len(o_repr.irreps))
-            out_block_counts[o_repr.name].append(o)
+            out_block_counts[self._out_type._labels[o]].append(o)
             
         in_irreps_counts = [0]
         in_block_counts = defaultdict(list)
         for i, i_repr in enumerate(self._in_type.representations):
             in_irreps_counts.append(in_irreps_counts[-1] + len(i_repr.irreps))
-            in_block_counts[i_repr.name].append(i)
+            in_block_counts[self._in_type._labels[i]].append(i)
 
         # iterate through the different group of blocks
         # i.e., through all input/output pairs
@@ -406,10 +406,10 @@ def _retrieve_indices(type: FieldType):
     _count = defaultdict(int)
     _contiguous = {}
     
-    for repr in type.representations:
-        _indices[repr.name] += list(range(fiber_position, fiber_position + repr.size))
+    for repr, label in zip(type.representations, type._labels):
+        _indices[label] += list(range(fiber_position, fiber_position + repr.size))
         fiber_position += repr.size
-        _count[repr.name] += 1
+        _count[label] += 1
     
     for name, indices in _indices.items():
         # _contiguous[o_name] = indices == list(range(indices[0], indices[0]+len(indices)))
@@ -432,7 +432,7 @@ def _compute_attrs_and_ids(in_type, out_type, block_submodules):
         in_irreps_count = 0
         for i, i_repr in enumerate(in_type.representations):
             
-            reprs_names = (i_repr.name, o_repr.name)
+            reprs_names = (in_type._labels[i], out_type._labels[o])
             
             # if a basis for the space of kernels between the current pair of representations exists
             if reprs_names in block_submodules:
@@ -443,7 +443,7 @@ def _compute_attrs_and_ids(in_type, out_type, block_submodules):
                 for attr in block_submodules[reprs_names].get_basis_info():
                     # build the ids of the basis vectors
                     # add names and indices of the input and output fields
-                    id = '({}-{},{}-{})'.format(i_repr.name, i, o_repr.name, o)
+                    id = '({}-{},{}-{})'.format(reprs_names[0], i, reprs_names[1], o)
                     # add the original id in the block submodule
                     id += "_" + attr["id"]
                     
-- 
2.43.0


From 62fd14879900e98cb5f53b4a188f4a69c4e6a9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:30 +0000
Subject: [PATCH 36/37] fix: variance of GNormBatchNorm when the mean is large

The mean of squares minus the squared mean is rounded to a wrong and even
negative variance if a trivial field's mean is much larger than its standard
deviation: the output and, after some batches, the statistics became NaN.
---
 e2cnn/nn/modules/batchnormalization/gnorm.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/gnorm.py b/e2cnn/nn/modules/batchnormalization/gnorm.py
index 871adc1..2c490e3 100644
--- a/e2cnn/nn/modules/batchnormalization/gnorm.py
+++ b/e2cnn/nn/modules/batchnormalization/gnorm.py
@@ -295,13 +295,14 @@ class GNormBatchNorm(EquivariantModule):
         # compute the mean of the trivial fields
         trivial_means = t[:, :, trivial_idxs, ...].view(b, c, l, x, y).sum(dim=(0, 3, 4), keepdim=False).detach() / N
         
-        # compute the mean of squares of all channels
-        vars = (t ** 2).view(b, c, s, x, y).sum(dim=(0, 3, 4), keepdim=False).detach() / N
-        
         # For the non-trivial fields the mean of the fields is 0, so we can compute the variance as the mean of the
         # norms squared.
-        # For trivial channels, we need to subtract the squared mean
-        vars[:, trivial_idxs] -= trivial_means**2
+        # For trivial channels, we need to subtract the mean first: subtracting the squared mean from the mean of
+        # squares gives wrong (even negative) variances when the mean is much larger than the standard deviation
+        centered = self._shift(t.detach(), -1*trivial_means, name=name)
+        
+        # compute the mean of squares of all channels
+        vars = (centered ** 2).view(b, c, s, x, y).sum(dim=(0, 3, 4), keepdim=False) / N
         
         # aggregate the squared means of the channels which belong to the same irrep
         vars = torch.einsum("io,ci->co", (vars_aggregator, vars))
-- 
2.43.0


From 3b04df1efa887a91bf6a164b220f9f67af5208d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:26 +0000
Subject: [PATCH 37/37] fix: exported anti-aliased pooling follows dtype and
 device conversions

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index d0ca535..5120d99 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -255,7 +255,7 @@ class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
 class FixedConv2D(torch.nn.Module):
     def __init__(self, filter:torch.Tensor, stride, _pad):
         super(FixedConv2D, self).__init__()
-        self._filter = filter.clone()
+        self.register_buffer('_filter', filter.clone())
         self._stride = stride
         self._pad = _pad
 
-- 
2.43.0

