From 8fbb648296adab0aa80dc34f9bc1ecc14f39b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:27 +0000
Subject: [PATCH 01/72] fix: include matrix_rank in
 LowRankAffineHermitianMatrix hyperparameters

---
 parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
index 254d9ad..68549b8 100644
--- a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
+++ b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
@@ -276,6 +276,7 @@ class LowRankAffineHermitianMatrix(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "matrix_size": self.matrix_size,
+            "matrix_rank": self.matrix_rank,
             "smoothing": self.smoothing,
             "init_magnitude": self.init_magnitude,
             "bias_term": self.bias_term,
-- 
2.43.0


From 59eec8f8f276be134eb1e3687c9dbb46647cb734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:27 +0000
Subject: [PATCH 02/72] fix: include path_order and separator in
 ConcatenateLeaves hyperparameters

---
 parametricmatrixmodels/modules/concatenateleaves.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index 5832d28..4448856 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -176,6 +176,8 @@ class ConcatenateLeaves(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "axis": self.axis,
+            "path_order": self.path_order,
+            "separator": self.separator,
         }
 
     def get_params(self) -> Params:
-- 
2.43.0


From d9afb22cfb2308bbb4af52ecb57af76c77a92e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:27 +0000
Subject: [PATCH 03/72] fix: Eigenvalues output shape for PyTree inputs when
 num_eig is None

---
 parametricmatrixmodels/modules/eigenvalues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/eigenvalues.py b/parametricmatrixmodels/modules/eigenvalues.py
index fbcdf0f..075ea72 100644
--- a/parametricmatrixmodels/modules/eigenvalues.py
+++ b/parametricmatrixmodels/modules/eigenvalues.py
@@ -151,7 +151,7 @@ class Eigenvalues(BaseModule):
         validate_eigensystem_input_shape(input_shape, self.num_eig)
         return jax.tree.map(
             lambda s: (
-                self.num_eig if self.num_eig is not None else input_shape[0],
+                self.num_eig if self.num_eig is not None else s[0],
             ),
             input_shape,
             is_leaf=is_shape_leaf,
-- 
2.43.0


From ff395bb42e910fe4a6a78b27750cd720fc8bfcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:27 +0000
Subject: [PATCH 04/72] fix: Reshape output shape of leaves left unchanged
 (None target)

---
 parametricmatrixmodels/modules/reshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/reshape.py b/parametricmatrixmodels/modules/reshape.py
index 60a74c3..ba7f5a6 100644
--- a/parametricmatrixmodels/modules/reshape.py
+++ b/parametricmatrixmodels/modules/reshape.py
@@ -174,7 +174,7 @@ class Reshape(BaseModule):
             target_shape: ArrayDataShape | None,
         ) -> ArrayDataShape:
             if target_shape is None:
-                return
+                return in_shape
 
             in_size = np.prod(np.array(in_shape)).item()
             if -1 in target_shape:
-- 
2.43.0


From a44eb011bea779a9e972122850df90661584a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:50 +0000
Subject: [PATCH 05/72] fix: Einsum dimension inference with several leading
 arrays

---
 parametricmatrixmodels/modules/einsum.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 580a87b..12378b6 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -246,9 +246,13 @@ class Einsum(BaseModule):
             param_shapes_list = (
                 [self.params.shape]
                 if isinstance(self.params, np.ndarray)
-                else jax.tree.leaves(
-                    self.params, is_leaf=lambda x: isinstance(x, np.ndarray)
-                )
+                else [
+                    p.shape
+                    for p in jax.tree.leaves(
+                        self.params,
+                        is_leaf=lambda x: isinstance(x, np.ndarray),
+                    )
+                ]
             )
             if len(leading_strs) != len(param_shapes_list):
                 raise ValueError(
-- 
2.43.0


From 576357e20dda56337da8f58d634e13c2d8879777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:50 +0000
Subject: [PATCH 06/72] fix: Einsum/MatMul without parameter arrays return
 empty params instead of None

---
 parametricmatrixmodels/modules/einsum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 12378b6..37c96f1 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -818,7 +818,10 @@ class Einsum(BaseModule):
             self.real = hyperparams["real"]
 
     def get_params(self) -> Params:
-        return self.params
+        return self.params if self.params is not None else ()
 
     def set_params(self, params: Params) -> None:
+        # the empty tuple is what get_params returns if there are no params
+        if isinstance(params, tuple) and len(params) == 0:
+            params = None
         self.params = params
-- 
2.43.0


From 66ffcb58fb6d39712120cec0300b73eac64fbc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:50 +0000
Subject: [PATCH 07/72] fix: Einsum uses the parameters it is called with, also
 when not trainable

---
 parametricmatrixmodels/modules/einsum.py | 35 ++++++++----------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 37c96f1..e5b7d09 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -641,30 +641,19 @@ class Einsum(BaseModule):
             # most of this will be traced out by jax
             arrays = []
 
-            # if trainable, params will be the leading arrays, if there are
-            # any, otherwise it will be an empty tuple
-            if self.trainable:
-                if isinstance(params, np.ndarray):
-                    arrays.append(params)
-                else:
-                    arrays.extend(
-                        jax.tree.leaves(
-                            params,
-                            is_leaf=lambda x: isinstance(x, np.ndarray),
-                        )
-                    )
-            elif not self.trainable and self.params is not None:
-                # if not trainable, params are fixed leading arrays, if any,
-                # and they are stored in self.params
-                if isinstance(self.params, np.ndarray):
-                    arrays.append(self.params)
-                else:
-                    arrays.extend(
-                        jax.tree.leaves(
-                            self.params,
-                            is_leaf=lambda x: isinstance(x, np.ndarray),
-                        )
+            # params will be the leading arrays (trainable or fixed), if there
+            # are any, otherwise it will be an empty tuple. They must always be
+            # taken from the argument and not from self, since the callable may
+            # outlive the current value of self.params
+            if isinstance(params, np.ndarray):
+                arrays.append(params)
+            else:
+                arrays.extend(
+                    jax.tree.leaves(
+                        params,
+                        is_leaf=lambda x: isinstance(x, np.ndarray),
                     )
+                )
             # add the input data arrays
             arrays.extend(
                 jax.tree.leaves(
-- 
2.43.0


From 62d451379bf40f9adbbd24545757531608a21b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:50 +0000
Subject: [PATCH 08/72] fix: keep MatMul separator when hyperparameters are set

---
 parametricmatrixmodels/modules/matmul.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index e293d40..c060f20 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -421,6 +421,7 @@ class MatMul(Einsum):
             trainable=self.trainable,
             init_magnitude=self.init_magnitude,
             real=self.real,
+            separator=self.separator,
         )
 
         super().set_hyperparameters(hyperparams)
-- 
2.43.0


From 7f3b9c208b591abf476bd8d5146bc451821c49cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:50 +0000
Subject: [PATCH 09/72] fix: MatMul accepts None for the inferred first output
 dimension

---
 parametricmatrixmodels/modules/matmul.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index c060f20..f1ee5a4 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -261,7 +261,10 @@ class MatMul(Einsum):
                         )
                     param_shape = (shape_list[~1][1],)
                 else:
-                    if self.output_shape[0] != shape_list[0][0]:
+                    if (
+                        self.output_shape[0] is not None
+                        and self.output_shape[0] != shape_list[0][0]
+                    ):
                         raise ValueError(
                             "If output_shape is a tuple and the parameter"
                             " matrix is the last operand, then the first"
-- 
2.43.0


From 6304920b3bb8a418b2580c20ffb775ab6069e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:27 +0000
Subject: [PATCH 10/72] fix: OneHot mixed the values of different rows when
 leaves have several features

---
 parametricmatrixmodels/preprocessing/onehot.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/onehot.py b/parametricmatrixmodels/preprocessing/onehot.py
index 8401c7d..b40b820 100644
--- a/parametricmatrixmodels/preprocessing/onehot.py
+++ b/parametricmatrixmodels/preprocessing/onehot.py
@@ -48,12 +48,11 @@ class OneHot(Scaler):
         """
 
         # flatten all feature axes and compute unique values for each leaf
-        # sort the unique values to ensure consistent ordering across runs and
-        # platforms
+        # np.unique sorts the unique rows lexicographically, which ensures
+        # consistent ordering across runs and platforms. The rows must not be
+        # sorted column by column, as that mixes values of different rows
         self.unique_vals_ = jax.tree.map(
-            lambda x: np.sort(
-                np.unique(x.reshape(x.shape[0], -1), axis=0), axis=0
-            ),
+            lambda x: np.unique(x.reshape(x.shape[0], -1), axis=0),
             X,
         )
         self.original_shapes_ = jax.tree.map(lambda x: x.shape[1:], X)
-- 
2.43.0


From 76c0d0b7d67497c4bfd36b005d9fe25df9404da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:27 +0000
Subject: [PATCH 11/72] fix: RobustScaler with leaves of more than one feature

---
 parametricmatrixmodels/preprocessing/robust_scaler.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index ad83e81..fb30ca7 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -191,9 +191,8 @@ class RobustScaler(Scaler):
             )
         return jax.tree.map(
             lambda x, median, scale: (
-                (x - median) / scale
-                if np.abs(scale) > self.eps
-                else x - median
+                (x - median)
+                / np.where(np.abs(scale) > self.eps, scale, 1.0)
             ),
             X,
             self.median_,
@@ -225,9 +224,8 @@ class RobustScaler(Scaler):
             )
         return jax.tree.map(
             lambda x_scaled, median, scale: (
-                x_scaled * scale + median
-                if np.abs(scale) > self.eps
-                else x_scaled + median
+                x_scaled * np.where(np.abs(scale) > self.eps, scale, 1.0)
+                + median
             ),
             X_scaled,
             self.median_,
-- 
2.43.0


From ca248c2d7bda32a455f68ab0c4f7317f7885bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:47 +0000
Subject: [PATCH 12/72] fix: RobustScaler scalar options with PyTree data

---
 .../preprocessing/robust_scaler.py            | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index fb30ca7..97f1802 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -125,6 +125,18 @@ class RobustScaler(Scaler):
             self
                 The fitted scaler instance.
         """
+
+        # scalar options apply to every leaf of the data
+        def to_tree(option: Any) -> Any:
+            if option is None or np.isscalar(option):
+                return jax.tree.map(lambda _: option, X)
+            return option
+
+        q_low = to_tree(self.q_low)
+        q_high = to_tree(self.q_high)
+        with_scaling = to_tree(self.with_scaling)
+        with_centering = to_tree(self.with_centering)
+
         data_qlow_ = jax.tree.map(
             lambda x, q_low, scale: (
                 np.quantile(x, q_low, axis=0)
@@ -132,8 +144,8 @@ class RobustScaler(Scaler):
                 else None
             ),
             X,
-            self.q_low,
-            self.with_scaling,
+            q_low,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
         data_qhigh_ = jax.tree.map(
@@ -143,8 +155,8 @@ class RobustScaler(Scaler):
                 else None
             ),
             X,
-            self.q_high,
-            self.with_scaling,
+            q_high,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
         self.scale_ = jax.tree.map(
@@ -155,14 +167,14 @@ class RobustScaler(Scaler):
             ),
             data_qhigh_,
             data_qlow_,
-            self.with_scaling,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
 
         self.median_ = jax.tree.map(
             lambda x, center: np.median(x, axis=0) if center else 0.0,
             X,
-            self.with_centering,
+            with_centering,
         )
 
         return self
-- 
2.43.0


From 526e42d85e1664a00aeea6e495173122badba4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:47 +0000
Subject: [PATCH 13/72] fix: RobustScaler with per-feature quantile arrays

---
 .../preprocessing/robust_scaler.py                   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 97f1802..46d224f 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -137,9 +137,17 @@ class RobustScaler(Scaler):
         with_scaling = to_tree(self.with_scaling)
         with_centering = to_tree(self.with_centering)
 
+        # array-valued quantiles hold one quantile per feature
+        def quantile(x: Any, q: Any) -> Any:
+            if np.ndim(q) == 0:
+                return np.quantile(x, q, axis=0)
+            return jax.vmap(np.quantile, in_axes=(1, 0))(
+                x.reshape(x.shape[0], -1), np.ravel(q)
+            ).reshape(x.shape[1:])
+
         data_qlow_ = jax.tree.map(
             lambda x, q_low, scale: (
-                np.quantile(x, q_low, axis=0)
+                quantile(x, q_low)
                 if q_low is not None and scale
                 else None
             ),
@@ -150,7 +158,7 @@ class RobustScaler(Scaler):
         )
         data_qhigh_ = jax.tree.map(
             lambda x, q_high, scale: (
-                np.quantile(x, q_high, axis=0)
+                quantile(x, q_high)
                 if q_high is not None and scale
                 else None
             ),
-- 
2.43.0


From 5a5f29105d4c00352468e8cc79dd71b73afedc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:45 +0000
Subject: [PATCH 14/72] fix: save models whose modules are stored in tuples or
 nested containers

---
 parametricmatrixmodels/model.py      |  5 +++--
 parametricmatrixmodels/model_util.py | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 9fc23cc..515abfa 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -25,6 +25,7 @@ from .model_util import (
     ModelState,
     ModelStruct,
     autobatch,
+    pack_for_savez,
 )
 from .modules import BaseModule
 from .training import OptimizerState, make_loss_fn, train
@@ -1757,7 +1758,7 @@ class Model(BaseModule):
 
         if isinstance(file, str):
             file = file if file.endswith(".npz") else file + ".npz"
-        np.savez(file, **data)
+        np.savez(file, **pack_for_savez(data))
 
     @jaxtyped(typechecker=beartype)
     def save_compressed(self, file: str | IO | Path, /) -> None:
@@ -1777,7 +1778,7 @@ class Model(BaseModule):
             file = file if file.endswith(".npz") else file + ".npz"
 
         # jax.numpy doesn't have savez_compressed, so we use numpy
-        onp.savez_compressed(file, **data)
+        onp.savez_compressed(file, **pack_for_savez(data))
 
     def load(
         self, file: str | IO | Path, /, *, strict_package_version=False
diff --git a/parametricmatrixmodels/model_util.py b/parametricmatrixmodels/model_util.py
index 83938d8..365a71b 100644
--- a/parametricmatrixmodels/model_util.py
+++ b/parametricmatrixmodels/model_util.py
@@ -5,6 +5,7 @@ from typing import TypeAlias
 
 import jax
 import jax.numpy as np
+import numpy as onp
 from beartype import beartype
 from jaxtyping import (
     Array,
@@ -260,3 +261,22 @@ def autobatch(
         batched_fn = jax.jit(batched_fn, static_argnames=["training"])
 
     return batched_fn
+
+
+def pack_for_savez(data: dict) -> dict:
+    r"""
+    Wrap the container-valued (list, tuple, dict) entries of ``data`` in
+    0-dimensional object arrays, so that ``savez`` stores them as they are.
+    Otherwise, numpy would try to stack lists and tuples into a single array,
+    which loses the difference between lists and tuples and fails if they are
+    nested or ragged.
+    """
+
+    def pack(value):
+        if not isinstance(value, (list, tuple, dict)):
+            return value
+        packed = onp.empty((), dtype=object)
+        packed[()] = value
+        return packed
+
+    return {key: pack(value) for key, value in data.items()}
-- 
2.43.0


From f694ec96ac0e6e41456689f8ff5229ecb2054806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:03 +0000
Subject: [PATCH 15/72] fix: save scalers whose state holds lists, tuples or
 arrays

---
 parametricmatrixmodels/preprocessing/scaler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/scaler.py b/parametricmatrixmodels/preprocessing/scaler.py
index 5cb0bd0..8c22f1e 100644
--- a/parametricmatrixmodels/preprocessing/scaler.py
+++ b/parametricmatrixmodels/preprocessing/scaler.py
@@ -10,6 +10,7 @@ import numpy as onp
 from beartype import beartype
 from jaxtyping import jaxtyped
 
+from ..model_util import pack_for_savez
 from ..typing import Any, DataFixed, Dict, Tuple
 
 
@@ -155,7 +156,7 @@ class Scaler(ABC):
         data = self.serialize()
         if isinstance(filepath, str) and not filepath.endswith(".npz"):
             filepath += ".npz"
-        onp.savez(filepath, **data)
+        onp.savez(filepath, **pack_for_savez(data))
 
     @final
     def save_compressed(self, filepath: IO | Path | str) -> None:
@@ -170,7 +171,7 @@ class Scaler(ABC):
         data = self.serialize()
         if isinstance(filepath, str) and not filepath.endswith(".npz"):
             filepath += ".npz"
-        onp.savez_compressed(filepath, **data)
+        onp.savez_compressed(filepath, **pack_for_savez(data))
 
     @classmethod
     @final
-- 
2.43.0


From f8c8d0d3536899a6ca8818bfc3a8b081e25704d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:03 +0000
Subject: [PATCH 16/72] fix: loading from the same extensionless path that was
 saved to

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 6 ++++++
 parametricmatrixmodels/model.py                        | 3 +++
 parametricmatrixmodels/preprocessing/scaler.py         | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index e7aa48d..82c9336 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1749,6 +1749,12 @@ class ConformalizedModel(object):
         A ``ConformalizedModel`` instance.
         """
 
+        if isinstance(file, str):
+            file = file if file.endswith(".npz") else file + ".npz"
+        elif isinstance(file, Path) and file.suffix != ".npz":
+            # savez adds the extension itself
+            file = file.with_name(file.name + ".npz")
+
         data = np.load(file, allow_pickle=True)
 
         # convert npz object to dict
diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 515abfa..8bc2531 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1798,6 +1798,9 @@ class Model(BaseModule):
         """
         if isinstance(file, str):
             file = file if file.endswith(".npz") else file + ".npz"
+        elif isinstance(file, Path) and file.suffix != ".npz":
+            # savez adds the extension itself
+            file = file.with_name(file.name + ".npz")
         # jax numpy load supports both compressed and uncompressed npz files
         data = np.load(file, allow_pickle=True)
 
diff --git a/parametricmatrixmodels/preprocessing/scaler.py b/parametricmatrixmodels/preprocessing/scaler.py
index 8c22f1e..a1537f8 100644
--- a/parametricmatrixmodels/preprocessing/scaler.py
+++ b/parametricmatrixmodels/preprocessing/scaler.py
@@ -190,6 +190,9 @@ class Scaler(ABC):
         """
         if isinstance(filepath, str) and not filepath.endswith(".npz"):
             filepath += ".npz"
+        elif isinstance(filepath, Path) and filepath.suffix != ".npz":
+            # savez adds the extension itself
+            filepath = filepath.with_name(filepath.name + ".npz")
         data = onp.load(filepath, allow_pickle=True)
 
         # convert all arrays to jax.numpy arrays, including tree leaves
-- 
2.43.0


From 71e4cc732205bf0a8419ad450670a89c0d4f6167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:03 +0000
Subject: [PATCH 17/72] fix: ConformalizedModel.from_file with a conformal name

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 82c9336..a443ee1 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1775,6 +1775,8 @@ class ConformalizedModel(object):
             data["conformalization_state"] = data[
                 "conformalization_state"
             ].item()
+        if isinstance(data["conformal_name"], (onp.ndarray, np.ndarray)):
+            data["conformal_name"] = data["conformal_name"].item()
 
         return cls.deserialize(
             data, strict_package_version=strict_package_version
-- 
2.43.0


From eb11ba558ded7e85baea851f3e8928691f47d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:03 +0000
Subject: [PATCH 18/72] fix: pop_module_by_index with negative indices on
 tuples of modules

---
 parametricmatrixmodels/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 8bc2531..6eb14fc 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1456,8 +1456,9 @@ class Model(BaseModule):
         elif isinstance(self.modules, List):
             return self.modules.pop(index)
         elif isinstance(self.modules, Tuple):
-            module = self.modules[index]
-            self.modules = self.modules[:index] + self.modules[index + 1 :]
+            modules = list(self.modules)
+            module = modules.pop(index)
+            self.modules = tuple(modules)
             return module
         else:
             raise TypeError(
-- 
2.43.0


From d8f181cb599415dca6b304184007cd5ab99393dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:03 +0000
Subject: [PATCH 19/72] fix: assigning to an index of a tuple of modules

---
 parametricmatrixmodels/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 6eb14fc..0801c15 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1334,7 +1334,12 @@ class Model(BaseModule):
                     "modules are not stored in a "
                     "list or tuple."
                 )
-            self.modules[key] = module
+            if isinstance(self.modules, Tuple):
+                modules = list(self.modules)
+                modules[key] = module
+                self.modules = tuple(modules)
+            else:
+                self.modules[key] = module
         else:
             raise TypeError(f"Invalid key type {type(key)} for module access.")
 
-- 
2.43.0


From 2eae36f8e1ba1ea0de1fd5a516a8dcb6272c141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:03 +0000
Subject: [PATCH 20/72] fix: adding models does not modify the left operand

---
 parametricmatrixmodels/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 0801c15..a9a155b 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1521,7 +1521,8 @@ class Model(BaseModule):
         -------
             New model with the other module or model appended.
         """
-        new_model = self.__class__(self.modules)
+        # copy the container(s) so that self is not modified
+        new_model = self.__class__(jax.tree.map(lambda m: m, self.modules))
         new_model.append_module(other)
         return new_model
 
-- 
2.43.0


From c4d790cc48fc0172107fbf85e50cbb142aab281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:03 +0000
Subject: [PATCH 21/72] fix: AffineObservablePMM uses the bias it is given

---
 parametricmatrixmodels/modules/affineobservablepmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 94f2317..4abfb02 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -289,6 +289,7 @@ class AffineObservablePMM(SequentialModel):
             if self.bias_term:
                 self.modules.append(
                     Bias(
+                        bias=self.b,
                         init_magnitude=self.init_magnitude,
                         real=True,
                         scalar=False,
-- 
2.43.0


From 43a6523c16855d839c955773acc20cdb1e4a8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:35 +0000
Subject: [PATCH 22/72] fix: MatMul path_order with dictionary keys that look
 like indices

---
 parametricmatrixmodels/modules/matmul.py | 36 +++++++++++-------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index f1ee5a4..6c1d93c 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -3,11 +3,7 @@ from __future__ import annotations
 import jax
 from jaxtyping import Array, Inexact
 
-from ..tree_util import (
-    extend_structure_from_strpaths,
-    getitem_by_strpath,
-    is_shape_leaf,
-)
+from ..tree_util import getitem_by_strpath, is_shape_leaf
 from ..typing import (
     Any,
     DataShape,
@@ -359,25 +355,25 @@ class MatMul(Einsum):
                     dim_map[index_chars[i]] = shape[0]
 
         # get the reverse permutation to go from path_order to leaves order
-        # the easiest way to do this is to place the new indices in the
-        # original tree
+        # the easiest way to do this is to look up the paths in a tree with the
+        # structure of the input and the leaf indices as leaves
         if self.path_order is None:
             perm = list(range(len(einsum_terms)))
         else:
-            # remove the param matrix path from path_order
-            pths_origs = [
-                (p, i)
-                for i, p in enumerate(self.path_order)
-                if p != double_sep
-            ]
-            # the index for the param matrix is at param_idx (if applicable)
-            pths = [p for p, _ in pths_origs]
-            idxs = [i for _, i in pths_origs]
-            temp_tree = extend_structure_from_strpaths(
-                None, pths, separator=self.separator, fill_values=idxs
+            structure = jax.tree.structure(input_shape, is_leaf=is_shape_leaf)
+            index_tree = jax.tree.unflatten(
+                structure, list(range(structure.num_leaves))
             )
-            # now flatten the tree to get the permutation
-            perm = jax.tree.leaves(temp_tree)
+            # perm[leaf index] = position in path_order
+            perm = [None] * structure.num_leaves
+            for i, p in enumerate(self.path_order):
+                # skip the param matrix
+                if p != double_sep:
+                    perm[
+                        getitem_by_strpath(
+                            index_tree, p, separator=self.separator
+                        )
+                    ] = i
 
             # if param_idx is not None, we just prepend it to the perm
             if param_idx is not None:
-- 
2.43.0


From 2c738aa7b9bf58fffd9bb4d2c0c2164f4870ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:54 +0000
Subject: [PATCH 23/72] fix: ConcatenateLeaves with a negative axis
 concatenated along the batch

---
 .../modules/concatenateleaves.py                   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index 4448856..baa2c23 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -77,6 +77,11 @@ class ConcatenateLeaves(BaseModule):
     def is_ready(self) -> bool:
         return True
 
+    def _axis_with_batch(self) -> int:
+        # axis does not count the batch dimension, which is the leading one,
+        # so negative axes need no shift
+        return self.axis + 1 if self.axis >= 0 else self.axis
+
     def _get_callable(self) -> ModuleCallable:
 
         @jaxtyped(typechecker=beartype)
@@ -112,7 +117,10 @@ class ConcatenateLeaves(BaseModule):
                     state,
                 )
             else:
-                return np.concatenate(leaves, axis=self.axis + 1), state
+                return (
+                    np.concatenate(leaves, axis=self._axis_with_batch()),
+                    state,
+                )
 
         return concatenate_leaves_callable
 
@@ -165,7 +173,9 @@ class ConcatenateLeaves(BaseModule):
                     axis=-1,
                 )
             else:
-                concatenated = np.concatenate(leaves, axis=self.axis + 1)
+                concatenated = np.concatenate(
+                    leaves, axis=self._axis_with_batch()
+                )
         except Exception as e:
             raise ValueError(
                 "Could not concatenate leaves with shapes "
-- 
2.43.0


From b2935d8b7807e9b8a8fb0e5d805e7947444f91a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:06 +0000
Subject: [PATCH 24/72] fix: Reshape/Flatten output shape of arrays without
 feature axes

---
 parametricmatrixmodels/modules/reshape.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/reshape.py b/parametricmatrixmodels/modules/reshape.py
index ba7f5a6..05e5455 100644
--- a/parametricmatrixmodels/modules/reshape.py
+++ b/parametricmatrixmodels/modules/reshape.py
@@ -1,3 +1,5 @@
+import math
+
 import jax
 import jax.numpy as np
 from beartype import beartype
@@ -176,7 +178,7 @@ class Reshape(BaseModule):
             if target_shape is None:
                 return in_shape
 
-            in_size = np.prod(np.array(in_shape)).item()
+            in_size = math.prod(in_shape)
             if -1 in target_shape:
                 # make sure there is only one -1
                 assert (
@@ -190,7 +192,7 @@ class Reshape(BaseModule):
                 inferred_dim = in_size // known_size
                 target_size = known_size * inferred_dim
             else:
-                target_size = np.prod(np.array(target_shape)).item()
+                target_size = math.prod(target_shape)
 
             assert in_size == target_size, (
                 f"Input shape {in_shape} is not compatible with target shape"
-- 
2.43.0


From ed0a8d3f00f4a8a483fb04d5f1de5ed3a4e847c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:05 +0000
Subject: [PATCH 25/72] fix: modules whose names start with 'input' or 'output'
 in connections

---
 parametricmatrixmodels/graph_util.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/parametricmatrixmodels/graph_util.py b/parametricmatrixmodels/graph_util.py
index f1566f5..748abda 100644
--- a/parametricmatrixmodels/graph_util.py
+++ b/parametricmatrixmodels/graph_util.py
@@ -359,12 +359,7 @@ def get_outer_connections_by_tree(
     # we use OrderedSet to preserve order
     conn_stripped: Dict[str, OrderedSet[str]] = {}
     for key, value in conn_separated.items():
-        # special case for 'input' and 'output'
-        if key.startswith("input") or key.startswith("output"):
-            # remove all IO paths here too
-            stripped_key = key.split(separator)[0]
-        else:
-            stripped_key, _ = key.split(double_sep)
+        stripped_key, _ = key.split(double_sep)
         if stripped_key not in conn_stripped:
             conn_stripped[stripped_key] = OrderedSet()
         for v in value:
@@ -644,7 +639,11 @@ def place_connections_in_tree(
 
     # infer the remainder structure
     # search through the reversed_part_conn for all keys starting with out_key
-    output_keys = [k for k in reversed_conn if k.startswith(out_key)]
+    output_keys = [
+        k
+        for k in reversed_conn
+        if k == out_key or k.startswith(out_key + separator)
+    ]
 
     # if theres only a single output key, and that key is exactly out_key,
     # then the remainder is just that value
-- 
2.43.0


From b39f1fa98bf80a57975201940b5e559be164356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:35 +0000
Subject: [PATCH 26/72] fix: extend_structure_from_strpaths with integer and
 string keys in one node

---
 parametricmatrixmodels/tree_util.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index a42d94b..c9d3668 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -8,7 +8,7 @@ import jax.numpy as np
 from beartype import beartype
 from jaxtyping import Array, Integer, Num, PyTree, Shaped, jaxtyped
 
-from .typing import Any, Callable, List, Tuple
+from .typing import Any, Callable, Dict, List, Tuple
 
 
 def any(
@@ -461,6 +461,17 @@ def extend_structure_from_strpaths(
         base_pytree = list(base_pytree)
         base_tuple = True
 
+    # new nodes are lists only if all keys below them are integers
+    all_path_parts = [path.split(separator) for path in strpaths]
+
+    def new_node(prefix: List[str]) -> List[Any] | Dict[str, Any]:
+        next_keys = [
+            parts[len(prefix)]
+            for parts in all_path_parts
+            if parts[: len(prefix)] == prefix and len(parts) > len(prefix)
+        ]
+        return [] if all(key.isdigit() for key in next_keys) else {}
+
     # keep track all all tuple nodes that were converted to lists
     # so we can convert them back at the end
     # we need lists for mutability during construction
@@ -512,11 +523,7 @@ def extend_structure_from_strpaths(
                         current_node[key] = fill_value
                     else:
                         # look ahead to determine next node type
-                        next_key = path_parts[i + 1]
-                        if next_key.isdigit():
-                            current_node[key] = []
-                        else:
-                            current_node[key] = {}
+                        current_node[key] = new_node(path_parts[: i + 1])
                 elif is_last and (
                     current_node[key] != fill_value and fill_value is not None
                 ):
@@ -534,11 +541,7 @@ def extend_structure_from_strpaths(
                         current_node[key] = fill_value
                     else:
                         # look ahead to determine next node type
-                        next_key = path_parts[i + 1]
-                        if next_key.isdigit():
-                            current_node[key] = []
-                        else:
-                            current_node[key] = {}
+                        current_node[key] = new_node(path_parts[: i + 1])
                 elif is_last and (
                     current_node[key] != fill_value and fill_value is not None
                 ):
-- 
2.43.0


From 659cd002109f8fc060b24592a6998118452856a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:44 +0000
Subject: [PATCH 27/72] fix: mean/scalar_add/scalar_mul of PyTrees whose leaves
 have different shapes

---
 parametricmatrixmodels/tree_util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index c9d3668..2ba6aab 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -581,7 +581,7 @@ def extend_structure_from_strpaths(
 
 @jaxtyped(typechecker=beartype)
 def mean(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
 ) -> Num[Array, ""]:
     r"""
     Computes the mean of all elements in all leaves of a PyTree of arrays.
@@ -826,9 +826,9 @@ def pow(
 
 @jaxtyped(typechecker=beartype)
 def scalar_add(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Adds a scalar value to all leaves of a PyTree of arrays.
 
@@ -850,9 +850,9 @@ def scalar_add(
 
 @jaxtyped(typechecker=beartype)
 def scalar_mul(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Multiplies all leaves of a PyTree of arrays by a scalar value.
 
-- 
2.43.0


From 20ce54234d9462209191b27af91ba4e6b738514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:40 +0000
Subject: [PATCH 28/72] fix: extend_structure_from_strpaths with nested tuples

---
 parametricmatrixmodels/tree_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index 2ba6aab..3f5225d 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -556,7 +556,8 @@ def extend_structure_from_strpaths(
 
     # convert any list nodes that correspond to tuple nodes in the
     # original base_pytree back to tuples
-    for path in tuple_node_paths:
+    # (innermost first, since tuples are immutable)
+    for path in reversed(tuple_node_paths):
         node = getitem_by_strpath(
             base_pytree, path, separator, allow_early_return=False
         )
-- 
2.43.0


From 847247a02ac0dcc2e34fbea0792c0d2b8c622852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:16 +0000
Subject: [PATCH 29/72] fix: autobatch with avoid_recompilation for arrays
 without feature axes

---
 parametricmatrixmodels/model_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model_util.py b/parametricmatrixmodels/model_util.py
index 365a71b..d9eb616 100644
--- a/parametricmatrixmodels/model_util.py
+++ b/parametricmatrixmodels/model_util.py
@@ -214,7 +214,7 @@ def autobatch(
                     out_remainders = []
                     for j in range(remainder):
                         X_rem = jax.tree.map(
-                            lambda x: x[j][None, :], X_remainder
+                            lambda x: x[j][None, ...], X_remainder
                         )
                         out_remainder, new_state = jfn(
                             params,
-- 
2.43.0


From b095fc9aae37d8e711e933a1c30f6ea12629ae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:55 +0000
Subject: [PATCH 30/72] fix: grad_params of models with complex parameters and
 more outputs than inputs

---
 parametricmatrixmodels/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index a9a155b..6eb8d3e 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -890,7 +890,12 @@ class Model(BaseModule):
             # if fwd is None, decide based on input and output sizes
             # fwd is more efficient when the number of input elements is less
             # than the number of output elements in general
-            fwd = num_input_elems < num_output_elems
+            # but it is not possible for complex parameters
+            fwd = num_input_elems < num_output_elems and not jax.tree.reduce(
+                lambda acc, p: acc or np.iscomplexobj(p),
+                self.get_params(),
+                initializer=False,
+            )
 
         if self.grad_callable_params is None or (
             fwd is not None and (self.grad_callable_params_options != fwd)
-- 
2.43.0


From 0792750929e0d8aea97c365bd78e06e4ab148ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:55 +0000
Subject: [PATCH 31/72] fix: changing fwd of grad_input/grad_params had no
 effect

---
 parametricmatrixmodels/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 6eb8d3e..2d52fd1 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -729,6 +729,7 @@ class Model(BaseModule):
             self.grad_callable_inputs_options = {
                 "fwd": fwd,
             }
+            self.autobatched_grad_callable_inputs = None
 
             # make non-batched version of the callable so that gradients
             # aren't taken over the batch dimension
@@ -902,6 +903,7 @@ class Model(BaseModule):
         ):
             raw_callable = self._get_callable()
             self.grad_callable_params_options = fwd
+            self.autobatched_grad_callable_params = None
             if fwd:
                 self.grad_callable_params = jax.jacfwd(
                     raw_callable, argnums=0, has_aux=True
-- 
2.43.0


From d0b27f35bad98f7da779836142e1b67b2aab80ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:03 +0000
Subject: [PATCH 32/72] fix: grad_input of models with state

---
 parametricmatrixmodels/model.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 2d52fd1..e5a3a05 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -743,7 +743,9 @@ class Model(BaseModule):
                 training: bool,
                 state: ModelState,
                 rng: Any,
-            ) -> PyTree[Inexact[Array, "..."]]:  # no batch dim
+            ) -> Tuple[
+                PyTree[Inexact[Array, "..."]], ModelState
+            ]:  # no batch dim
                 y, new_state = raw_callable(
                     params,
                     jax.tree.map(lambda u: u[None, ...], x),
@@ -761,10 +763,19 @@ class Model(BaseModule):
                 grad_single = jax.jacrev(
                     callable_single, argnums=1, has_aux=True
                 )
-            self.grad_callable_inputs = jax.vmap(
+            grad_batched = jax.vmap(
                 grad_single, in_axes=(None, 0, None, None, None)
             )
 
+            def grad_callable_inputs(params, X, training, state, rng):
+                grad, new_states = grad_batched(
+                    params, X, training, state, rng
+                )
+                # one new state per sample, keep the last one
+                return grad, jax.tree.map(lambda s: s[-1], new_states)
+
+            self.grad_callable_inputs = grad_callable_inputs
+
         # safecast input to requested dtype
         X_ = safecast(X, dtype)
 
-- 
2.43.0


From da7808340d00a561d6c4f25ab5fa21495e540e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:17 +0000
Subject: [PATCH 33/72] fix: grad_input of PyTree inputs whose leaves have
 different feature sizes

---
 parametricmatrixmodels/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index e5a3a05..26ad643 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -739,7 +739,7 @@ class Model(BaseModule):
             @jaxtyped(typechecker=beartype)
             def callable_single(
                 params: ModelParams,
-                x: Data,
+                x: PyTree[Inexact[Array, "..."]],  # no batch dim
                 training: bool,
                 state: ModelState,
                 rng: Any,
-- 
2.43.0


From c70408628acd115a33e2c0c9470a25cfa2b3ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:46 +0000
Subject: [PATCH 34/72] fix: load models that were saved before being compiled

---
 parametricmatrixmodels/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 26ad643..ec1920f 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1759,6 +1759,10 @@ class Model(BaseModule):
         # and will cause issues overwriting the module's own trainable
         # attribute
         data["self_serialized"].pop("trainable", None)
+        # remove params and state from data["self_serialized"] since the modules
+        # have already deserialized their own (None for unready modules)
+        data["self_serialized"].pop("params", None)
+        data["self_serialized"].pop("state", None)
 
         # let default deserialization handle the rest of the attributes
         super().deserialize(
-- 
2.43.0


From 33c4aac0f88baf6ec2ef4d5ef282c9472f62ab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:17 +0000
Subject: [PATCH 35/72] fix: copying and saving uncompiled
 LowRankAffineHermitianMatrix modules

---
 parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
index 68549b8..ac19c7d 100644
--- a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
+++ b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
@@ -291,7 +291,8 @@ class LowRankAffineHermitianMatrix(BaseModule):
         super().set_hyperparameters(hyperparams)
 
     def get_params(self) -> Params:
-        return (self.ls, self.us)
+        # None if not ready, like the other modules
+        return None if self.us is None else (self.ls, self.us)
 
     def set_params(self, params: Params) -> None:
         if (
-- 
2.43.0


From 4baece9f0356619c6794a21bc2ea36e3ac272df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:22 +0000
Subject: [PATCH 36/72] fix: copying and saving uncompiled LinearNN modules
 lost the activation

---
 parametricmatrixmodels/modules/linearnn.py | 34 +++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/linearnn.py b/parametricmatrixmodels/modules/linearnn.py
index 461544e..632c211 100644
--- a/parametricmatrixmodels/modules/linearnn.py
+++ b/parametricmatrixmodels/modules/linearnn.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import sys
+
 import jax
 
 from ..sequentialmodel import SequentialModel
@@ -177,6 +179,26 @@ class LinearNN(SequentialModel):
         self.real = hyperparams.get("real", self.real)
         super().set_hyperparameters(hyperparams)
 
+    def serialize(self) -> Dict[str, Serializable]:
+        r"""
+        Serialize the LinearNN module to a dictionary.
+
+        Returns
+        -------
+        Dict[str, Serializable]
+            A dictionary containing the serialized data of the module.
+        """
+
+        data = super().serialize()
+        # before compilation, the activation is not in .modules yet
+        if not self.modules and self.activation is not None:
+            data["self_serialized"]["activation"] = {
+                "typename": self.activation.__class__.__name__,
+                "module": self.activation.__module__,
+                "serialized": self.activation.serialize(),
+            }
+        return data
+
     def deserialize(
         self,
         data: Dict[str, Serializable],
@@ -197,9 +219,19 @@ class LinearNN(SequentialModel):
         super().deserialize(
             data, strict_package_version=strict_package_version
         )
+        activation = data["self_serialized"].get("activation", None)
+        if activation is not None:
+            # serialized before compilation
+            self.activation = getattr(
+                sys.modules[activation["module"]], activation["typename"]
+            )()
+            self.activation.deserialize(
+                activation["serialized"],
+                strict_package_version=strict_package_version,
+            )
         # just need to read .modules to make sure .activation matches the
         # modules
-        if self.modules is not None:
+        elif self.modules is not None:
             # figure out if modules contains an activation function
             # by checking the number of modules
             if len(self.modules) == 2:
-- 
2.43.0


From d9696e6622db3e01ffc58d2702c8b327e877e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:52 +0000
Subject: [PATCH 37/72] fix: keep given matrices of uncompiled packaged PMMs
 when copying and saving

---
 parametricmatrixmodels/modules/affineeigenvaluepmm.py | 2 ++
 parametricmatrixmodels/modules/affineobservablepmm.py | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/parametricmatrixmodels/modules/affineeigenvaluepmm.py b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
index 5b3c474..cb47629 100644
--- a/parametricmatrixmodels/modules/affineeigenvaluepmm.py
+++ b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
@@ -203,6 +203,7 @@ class AffineEigenvaluePMM(SequentialModel):
             "smoothing": self.smoothing,
             "init_magnitude": self.init_magnitude,
             "bias_term": self.bias_term,
+            "Ms": self.Ms,
             **super().get_hyperparameters(),
         }
 
@@ -213,4 +214,5 @@ class AffineEigenvaluePMM(SequentialModel):
         self.smoothing = hyperparams["smoothing"]
         self.init_magnitude = hyperparams["init_magnitude"]
         self.bias_term = hyperparams["bias_term"]
+        self.Ms = hyperparams.get("Ms", None)
         super().set_hyperparameters(hyperparams)
diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 4abfb02..21d8177 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -329,6 +329,9 @@ class AffineObservablePMM(SequentialModel):
             "centered": self.centered,
             "bias_term": self.bias_term,
             "use_expectation_values": self.use_expectation_values,
+            "Ms": self.Ms,
+            "Ds": self.Ds,
+            "b": self.b,
             **super().get_hyperparameters(),
         }
 
@@ -344,4 +347,7 @@ class AffineObservablePMM(SequentialModel):
         self.output_size = hyperparams["output_size"]
         self.centered = hyperparams["centered"]
         self.use_expectation_values = hyperparams["use_expectation_values"]
+        self.Ms = hyperparams.get("Ms", None)
+        self.Ds = hyperparams.get("Ds", None)
+        self.b = hyperparams.get("b", None)
         super().set_hyperparameters(hyperparams)
-- 
2.43.0


From b1170e4e26427b0f03baa3daf31b15a828df24e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:11 +0000
Subject: [PATCH 38/72] fix: training non-sequential models with state

---
 parametricmatrixmodels/nonsequentialmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 94d8168..541a7d1 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -846,7 +846,8 @@ class NonSequentialModel(Model):
                 data,
                 separator=self.separator,
             )
-            new_state = state
+            # new containers, since the state is updated in place below
+            new_state = jax.tree.map(lambda s: s, state)
             # now execute each module in the execution order, assembling the
             # inputs from the intermediate outputs
             for mod_path, module_callable, req_in_paths in zip(
-- 
2.43.0


From 000e139306af60ba4e3ed2d3290d5e9f3c938b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 39/72] fix: complex Adam counted batches in addition to epochs

The counter used for the bias correction and the learning rate schedule is
incremented once per epoch by the training loop, as for real parameters.
---
 parametricmatrixmodels/training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 6907369..2ae9b06 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -265,7 +265,7 @@ def complex_adam(
         v_hat = v / np.float32(1 - b2 ** (i + 1))
         x = x - (step_size(i) * m_hat / (np.sqrt(v_hat) + eps))
 
-        return OptimizerState(x, m, v, i + 1)
+        return OptimizerState(x, m, v, i)
 
     @jaxtyped(typechecker=beartype)
     def get_params(state: OptimizerState) -> ParamArray:
-- 
2.43.0


From 9128e3f0c0e004317d6ac3aaa5517865887de319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 40/72] fix: resumed training repeated the last epoch's
 optimizer count

---
 parametricmatrixmodels/training.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 2ae9b06..fb06737 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -974,6 +974,13 @@ def _train(
                 epoch,
             )
 
+        # count the epoch before the state is possibly stored as the best one,
+        # so that resuming from it continues with the right count
+        adam_state = [
+            increment_epoch(int(trainable), state)
+            for trainable, state in zip(trainable_flags_flat, adam_state)
+        ]
+
         # Validation step
         batch_rng, epoch_rng = jax.random.split(batch_rng)
         val_loss = batched_val_loss_fn(
@@ -1043,10 +1050,6 @@ def _train(
             adam_state,
             is_leaf=lambda x: isinstance(x, OptimizerState),
         )
-        adam_state = [
-            increment_epoch(int(trainable), state)
-            for trainable, state in zip(trainable_flags_flat, adam_state)
-        ]
 
         # Return the updated state for the next epoch
         return (
-- 
2.43.0


From b207fa2fb51f0f04d0d70cd745072f47f1c542e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 41/72] fix: validation loss depended on the validation batch
 size

The smaller last batch had the same weight as the full ones.
---
 parametricmatrixmodels/training.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index fb06737..2e1c3a3 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -506,8 +506,6 @@ def _train(
     batch_remainder = orig_batch_size % batch_size
     val_batch_remainder = orig_val_batch_size % val_batch_size
 
-    total_val_batches = num_val_batches + (1 if val_batch_remainder > 0 else 0)
-
     if verbose:
         killer = GracefulKiller()
         pb = ProgressBar(
@@ -587,7 +585,8 @@ def _train(
                 shuffled_val_X,
                 shuffled_val_Y,
                 shuffled_val_Y_unc,
-                mean_val_loss + val_loss / total_val_batches,
+                mean_val_loss
+                + val_loss * (val_batch_size / orig_val_batch_size),
             )
 
         # shuffle the validation data
@@ -668,8 +667,10 @@ def _train(
                 *params,
             )
 
-            # add the last batch loss to the mean
-            mean_val_loss += val_loss / total_val_batches
+            # add the last batch loss to the mean, weighted by its size
+            mean_val_loss += val_loss * (
+                val_batch_remainder / orig_val_batch_size
+            )
 
         # return the mean validation loss
         return mean_val_loss
-- 
2.43.0


From fada7c977d445253be41bb2eae855f39e6e4b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 42/72] fix: pseudo_huber loss failed for PyTree outputs

---
 parametricmatrixmodels/training.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 2e1c3a3..ff1c84b 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1791,14 +1791,11 @@ def make_loss_fn(fn_name: str, model_fn: Callable):
 
             error = pmm_tree_util.sub(Y_pred, Y)
 
-            pseudo_huber_loss = delta**2 * (
-                pmm_tree_util.sqrt(
-                    1
-                    + pmm_tree_util.abs_sqr(
-                        jax.tree.map(lambda x: x / delta, error)
-                    )
-                )
-                - 1
+            pseudo_huber_loss = jax.tree.map(
+                lambda e2: delta**2 * (np.sqrt(1 + e2) - 1),
+                pmm_tree_util.abs_sqr(
+                    jax.tree.map(lambda x: x / delta, error)
+                ),
             )
 
             return (pmm_tree_util.mean(pseudo_huber_loss), new_state)
-- 
2.43.0


From 5264490ed9fbd7901bf847b1cfd1b2170a091e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 43/72] fix: custom validation loss without validation data

---
 parametricmatrixmodels/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index ec1920f..c4c5d13 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1193,9 +1193,12 @@ class Model(BaseModule):
         Y_unc_prov = Y_unc is not None
         loss_fn_ = clean_loss_fn(loss_fn, Y_prov, Y_unc_prov)
 
-        # repeat for validation
-        Y_val_prov = Y_val is not None
-        Y_val_unc_prov = Y_val_unc is not None
+        # repeat for validation, for which the training data is used if no
+        # validation data is provided
+        Y_val_prov = (Y_val if X_val is not None else Y) is not None
+        Y_val_unc_prov = (
+            Y_val_unc if X_val is not None else Y_unc
+        ) is not None
         val_loss_fn_ = (
             clean_loss_fn(val_loss_fn, Y_val_prov, Y_val_unc_prov)
             if val_loss_fn is not None
-- 
2.43.0


From 81e25364b892c896be3bdb32a21c4253742b8084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 44/72] fix: resuming training discarded parameters set in
 between

---
 parametricmatrixmodels/model.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index c4c5d13..7084b72 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1220,6 +1220,18 @@ class Model(BaseModule):
 
         trainable_flags = jax.tree.broadcast(trainable_modules, params)
 
+        # resume from the current parameters of the model, which may have been
+        # changed since the optimizer state was stored
+        optimizer_state = self._optimizer_state
+        if resume and optimizer_state is not None:
+            optimizer_state = jax.tree.map(
+                lambda p, s: OptimizerState(
+                    p, s.m.astype(p.dtype), s.v.astype(p.dtype), s.epoch
+                ),
+                params,
+                optimizer_state,
+            )
+
         # train the model
         (
             final_params,
@@ -1229,7 +1241,7 @@ class Model(BaseModule):
             final_optimizer_states,
         ) = train(
             resume=resume,
-            adam_state=self._optimizer_state,
+            adam_state=optimizer_state,
             init_params=self.get_params(),
             trainable_flags=trainable_flags,
             init_state=self.get_state(),
-- 
2.43.0


From dc112f03190a517fd2b52cb5d966bc66bedb4da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:24 +0000
Subject: [PATCH 45/72] fix: signals were ignored after training

---
 parametricmatrixmodels/training.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index ff1c84b..f9b0691 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1,6 +1,8 @@
 import random
 import signal
+import threading
 import warnings
+from contextlib import contextmanager
 from dataclasses import dataclass
 from functools import partial
 
@@ -110,6 +112,29 @@ class GracefulKiller:
         self.kill_now = True
 
 
+@contextmanager
+def _restored_signal_handlers():
+    """
+    Restore the signal handlers that ``GracefulKiller`` replaces when the
+    training is done. Otherwise, SIGINT and SIGTERM would be ignored for the
+    rest of the process.
+    """
+    # signal handlers can only be changed from the main thread
+    if threading.current_thread() is not threading.main_thread():
+        yield
+        return
+    handlers = {
+        s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)
+    }
+    try:
+        yield
+    finally:
+        for s, handler in handlers.items():
+            # None if the handler was not installed from Python
+            if handler is not None:
+                signal.signal(s, handler)
+
+
 @jaxtyped(typechecker=beartype)
 def make_schedule(
     scalar_or_schedule: float | Callable[[int], float],
@@ -1132,6 +1157,7 @@ def _train(
     )
 
 
+@_restored_signal_handlers()
 @jaxtyped(typechecker=beartype)
 def train(
     resume: bool,  # whether to resume training from a previous state
@@ -1723,6 +1749,9 @@ def train(
         verbose=verbose,
     )
 
+    # the signal handlers are needed until the training is actually done
+    jax.block_until_ready(final_adam_state_flat)
+
     # rebuild the params PyTree
     best_params_list = jax.tree.map(
         get_params,
-- 
2.43.0


From 4ae8ceb252438584b73302ac13b072e91a300073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:07 +0000
Subject: [PATCH 46/72] fix: packaged modules frozen before being compiled were
 trained

---
 parametricmatrixmodels/model.py                  | 16 +++++++++++-----
 .../modules/affineeigenvaluepmm.py               |  6 ++++++
 .../modules/affineobservablepmm.py               |  6 ++++++
 parametricmatrixmodels/modules/linearnn.py       |  6 ++++++
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 7084b72..7ae3ad8 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -84,14 +84,19 @@ class Model(BaseModule):
         )
 
     # override the trainable property
+    _trainable: bool = True
+
     @property
     def trainable(self) -> bool:
-        return any(
-            module.trainable for module in jax.tree.leaves(self.modules)
-        )
+        modules = jax.tree.leaves(self.modules)
+        if len(modules) == 0:
+            # models that create their modules when compiled
+            return self._trainable
+        return any(module.trainable for module in modules)
 
     @trainable.setter
     def trainable(self, value: bool) -> None:
+        self._trainable = value
         for module in jax.tree.leaves(self.modules):
             module.trainable = value
 
@@ -1772,8 +1777,9 @@ class Model(BaseModule):
         data["self_serialized"].pop("_optimizer_state", None)
         # remove "trainable" from data["self_serialized"] since it's not needed
         # and will cause issues overwriting the module's own trainable
-        # attribute
-        data["self_serialized"].pop("trainable", None)
+        # attribute, unless there are no modules yet
+        if len(jax.tree.leaves(self.modules)) > 0:
+            data["self_serialized"].pop("trainable", None)
         # remove params and state from data["self_serialized"] since the modules
         # have already deserialized their own (None for unready modules)
         data["self_serialized"].pop("params", None)
diff --git a/parametricmatrixmodels/modules/affineeigenvaluepmm.py b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
index cb47629..a34a68d 100644
--- a/parametricmatrixmodels/modules/affineeigenvaluepmm.py
+++ b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
@@ -163,6 +163,9 @@ class AffineEigenvaluePMM(SequentialModel):
                 UserWarning,
             )
 
+        # the modules may be replaced, but stay frozen if they were
+        trainable = self.trainable
+
         if self.input_shape != input_shape or self.modules is None:
             # Create the AffineHermitianMatrix module
             affine_module = AffineHermitianMatrix(
@@ -185,6 +188,9 @@ class AffineEigenvaluePMM(SequentialModel):
         # Call the parent compile method
         super().compile(rng, input_shape, verbose=verbose)
 
+        if not trainable:
+            self.freeze()
+
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         valid, _ = is_single_leaf(input_shape, is_leaf=is_shape_leaf)
         if not valid:
diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 21d8177..6eed4ac 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -249,6 +249,9 @@ class AffineObservablePMM(SequentialModel):
                 UserWarning,
             )
 
+        # the modules may be replaced, but stay frozen if they were
+        trainable = self.trainable
+
         # don't override existing modules if input shape hasn't changed
         if input_shape != self.input_shape or self.modules is None:
 
@@ -301,6 +304,9 @@ class AffineObservablePMM(SequentialModel):
 
         super().compile(rng, input_shape, verbose=verbose)
 
+        if not trainable:
+            self.freeze()
+
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         if self.output_size is None:
             raise ValueError(
diff --git a/parametricmatrixmodels/modules/linearnn.py b/parametricmatrixmodels/modules/linearnn.py
index 632c211..f48455f 100644
--- a/parametricmatrixmodels/modules/linearnn.py
+++ b/parametricmatrixmodels/modules/linearnn.py
@@ -90,6 +90,9 @@ class LinearNN(SequentialModel):
                 "LinearNN only supports input shapes with a single leaf array."
             )
 
+        # the modules may be replaced, but stay frozen if they were
+        trainable = self.trainable
+
         if input_shape != self.input_shape or self.modules is None:
             # don't overwrite modules if input shape hasn't changed
             modules: List[BaseModule] = [
@@ -119,6 +122,9 @@ class LinearNN(SequentialModel):
 
         super().compile(rng, input_shape, verbose=verbose)
 
+        if not trainable:
+            self.freeze()
+
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         r"""
         Get the output shape of the LinearNN module given the input shape.
-- 
2.43.0


From 6d0bc3d1a9ba88b6d4142a6fa71f0b325a86a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:45 +0000
Subject: [PATCH 47/72] fix: frozen modules inside sub-models were trained

---
 parametricmatrixmodels/model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 7ae3ad8..d83aace 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1221,7 +1221,17 @@ class Model(BaseModule):
         # parameters p1 and the second module has parameters [p2, p3], then
         # we want trainable_params to be [False, [True, True]] so that the
         # training function knows to update p2 and p3 but not p1
-        trainable_modules = self.get_trainable_modules()
+        # the modules of sub-models can be frozen individually
+        def get_trainable(model: Model) -> PyTree[bool]:
+            return jax.tree.map(
+                lambda mod, trainable: (
+                    get_trainable(mod) if isinstance(mod, Model) else trainable
+                ),
+                model.modules,
+                model.get_trainable_modules(),
+            )
+
+        trainable_modules = get_trainable(self)
 
         trainable_flags = jax.tree.broadcast(trainable_modules, params)
 
-- 
2.43.0


From 4fef329093b2cf448afb18f4f680da149ca5b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:49 +0000
Subject: [PATCH 48/72] fix: StandardScaler and MinMaxScaler divided by zero
 for constant features

A feature with the same value in all samples gave NaN for every sample.
Such features are now only shifted.
---
 parametricmatrixmodels/preprocessing/minmax_scaler.py   | 8 ++++++++
 parametricmatrixmodels/preprocessing/standard_scaler.py | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index 9526d2a..96f8f7f 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -85,6 +85,14 @@ class MinMaxScaler(Scaler):
         """
         self.data_min_ = jax.tree.map(lambda x: np.min(x, axis=0), X)
         self.data_max_ = jax.tree.map(lambda x: np.max(x, axis=0), X)
+        # features that do not vary are only shifted
+        self.data_max_ = jax.tree.map(
+            lambda data_min, data_max: np.where(
+                data_max == data_min, data_min + 1, data_max
+            ),
+            self.data_min_,
+            self.data_max_,
+        )
         return self
 
     def transform(
diff --git a/parametricmatrixmodels/preprocessing/standard_scaler.py b/parametricmatrixmodels/preprocessing/standard_scaler.py
index a8a1075..a32b3cc 100644
--- a/parametricmatrixmodels/preprocessing/standard_scaler.py
+++ b/parametricmatrixmodels/preprocessing/standard_scaler.py
@@ -42,7 +42,10 @@ class StandardScaler(Scaler):
                 The fitted scaler instance.
         """
         self.mean_ = jax.tree.map(lambda x: np.mean(x, axis=0), X)
-        self.scale_ = jax.tree.map(lambda x: np.std(x, axis=0), X)
+        # features that do not vary are only centered
+        self.scale_ = jax.tree.map(
+            lambda x: np.where((std := np.std(x, axis=0)) == 0, 1, std), X
+        )
 
         return self
 
-- 
2.43.0


From 0462ffc86ef291ae00b5c0787c3a9533ec115ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:49 +0000
Subject: [PATCH 49/72] fix: restore scalers whose range was given as an array

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 2 ++
 parametricmatrixmodels/preprocessing/robust_scaler.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index 96f8f7f..530c12b 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -61,6 +61,8 @@ class MinMaxScaler(Scaler):
                 both will be treated as None for that feature.
                 Default is (0.0, 1.0).
         """
+        if isinstance(feature_range, jax.Array):
+            feature_range = tuple(feature_range.tolist())
         self.min_val, self.max_val = feature_range
         self.data_min_: BatchlessRealDataFixed | None = None
         self.data_max_: BatchlessRealDataFixed | None = None
diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 46d224f..6b335c7 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -100,6 +100,8 @@ class RobustScaler(Scaler):
                 Minimum scale value to avoid division by zero when scaling.
                 Default is 1e-12.
         """
+        if isinstance(quantile_range, jax.Array):
+            quantile_range = tuple(quantile_range.tolist())
         self.q_low, self.q_high = quantile_range
         self.with_centering = with_centering
         self.with_scaling = with_scaling
-- 
2.43.0


From 61ff5faf235d6a54e5d37ce5016ec9869ce6502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:14 +0000
Subject: [PATCH 50/72] fix: one-hot encoding of leaves with different numbers
 of values

---
 parametricmatrixmodels/preprocessing/onehot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/onehot.py b/parametricmatrixmodels/preprocessing/onehot.py
index b40b820..cd47057 100644
--- a/parametricmatrixmodels/preprocessing/onehot.py
+++ b/parametricmatrixmodels/preprocessing/onehot.py
@@ -63,7 +63,7 @@ class OneHot(Scaler):
         self,
         X: PyTree[Inexact[Array, "n ?f0 ?*f"], " Data"],
         y: Any | None = None,
-    ) -> PyTree[Inexact[Array, "n num_unique"], " Data"]:
+    ) -> PyTree[Inexact[Array, "n ?num_unique"], " Data"]:
         """
         Encodes the input data as one-hot based on the unique values found
         during fitting. Values not found during fitting are encoded as all
@@ -98,7 +98,7 @@ class OneHot(Scaler):
 
     def inverse_transform(
         self,
-        X_encoded: PyTree[Inexact[Array, "n num_unique"], " Data"],
+        X_encoded: PyTree[Inexact[Array, "n ?num_unique"], " Data"],
         y_encoded: Any | None = None,
     ) -> PyTree[Inexact[Array, "n ?f0 ?*f"], " Data"]:
         """
-- 
2.43.0


From da9aea14e13ac92d2530dba7b8908fd1588317e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 51/72] fix: recalibrated models kept using the quantiles of
 the previous calibration

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index a443ee1..7202131 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -812,6 +812,8 @@ class ConformalizedModel(object):
         # s = |Y - Y_pred| / u
 
         self.scores = tree_util.div(tree_util.abs(Y_cal_residuals), u_cal)
+        # quantiles of previous scores are no longer valid
+        self.qhats = {}
 
     def parameter_sensitivity(
         self,
-- 
2.43.0


From d6dc9e09b5802a8a25f133f349d9e03af61ea0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 52/72] fix: input uncertainties of different samples were
 mixed

---
 .../conformal/conformalizedmodel.py                 | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 7202131..0cbbafd 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -980,9 +980,16 @@ class ConformalizedModel(object):
             X_unc = handle_naninf(X_unc)
             dy_input_unc = tree_util.scalar_mul(
                 jax.tree.map(
-                    lambda _, df: accumulate_sum_sq_over_output_leaves(
-                        u_dtype, df, X_unc
-                    ),
+                    lambda _, df: jax.vmap(
+                        # each sample has its own uncertainties
+                        lambda df_i, unc_i: (
+                            accumulate_sum_sq_over_output_leaves(
+                                u_dtype,
+                                jax.tree.map(lambda d: d[None], df_i),
+                                unc_i,
+                            )[0]
+                        )
+                    )(df, X_unc),
                     self.model.output_shape,
                     df_dx,
                     is_leaf=tree_util.is_shape_leaf,
-- 
2.43.0


From de294b946542a059c7424305b7677a0615eeceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 53/72] fix: calibration with target uncertainties

---
 .../conformal/conformalizedmodel.py            | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 0cbbafd..04fa2e7 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1809,10 +1809,20 @@ def weighted_quantile(
     axis: int = 0,
     quantiles: Real[Array, " q"] | float = 0.5,
 ) -> Inexact[Array, "..."]:
-    idxs = np.argsort(weights, axis=axis)
-    cum_weights = np.cumsum(weights[idxs], axis=axis)
-    w_qs = np.interp(quantiles * cum_weights[~0], cum_weights, data[idxs])
-    return w_qs
+    def weighted_quantile_1d(d, w):
+        idxs = np.argsort(d)
+        cum_weights = np.cumsum(w[idxs])
+        return np.interp(quantiles * cum_weights[~0], cum_weights, d[idxs])
+
+    data = np.moveaxis(data, axis, 0)
+    weights = np.moveaxis(weights, axis, 0)
+    shape = data.shape[1:]
+    w_qs = jax.vmap(weighted_quantile_1d, in_axes=1, out_axes=-1)(
+        data.reshape(data.shape[0], -1),
+        weights.reshape(data.shape[0], -1),
+    )
+    # quantiles (if more than one) along the leading axis
+    return w_qs.reshape(*np.shape(quantiles), *shape)
 
 
 def mad(
-- 
2.43.0


From 2d30826b2264ce11a731c0a5ad0569cb97b96378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 54/72] fix: stratified bias correction of models with more
 than one output

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 04fa2e7..ba1370f 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -537,7 +537,7 @@ class ConformalizedModel(object):
                         for i in range(self._strata_unique_values.shape[0])
                     ]
                     # bias of 0.0 for points that don't match any strata
-                    + [[0.0]],
+                    + [np.zeros(y.shape[1:])],
                     dtype=y.dtype,
                 ),
                 Y_cal_residuals,
-- 
2.43.0


From b2520bf6c40f0d0cee0ab63ec6202b04f7bc1fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 55/72] fix: distances of categorical leaves with several
 features

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index ba1370f..afae0f1 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -640,13 +640,14 @@ class ConformalizedModel(object):
             def compute_range(
                 feature: Inexact[Array, " n_samples f0 *f"],
                 is_continuous: bool,
-            ) -> Real[Array, " f0 *f"]:
+            ) -> Real[Array, " ..."]:
                 # categorical features are scaled by 0.5, since we want
                 # categorical features to have d = {0, 1} after one-hot
                 # encoding which has a range of 1 and a max grower distance
                 # of 2 (L1 distance)
                 if not is_continuous:
-                    return np.full(feature.shape[1:], 2.0, dtype=feature.dtype)
+                    # a single value, for any number of categories
+                    return np.full((1,), 2.0, dtype=feature.dtype)
                 return np.ptp(feature, axis=0)
 
             self._iqr_X_train = jax.tree.map(
-- 
2.43.0


From 7829376765fd827f68640fd6377d5e7b011ad0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 56/72] fix: training data with distance sensitivity turned off

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index afae0f1..7f1304e 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -676,6 +676,9 @@ class ConformalizedModel(object):
             )
             self._onehot_training_enc.fit(self._training_data)
 
+        if self._training_data is not None and tree_util.any(
+            self._distance_sensitivity
+        ):
             flat_data = self._prepare_data_for_kdtree(self._training_data)
 
             # before building the KDTree, remove any duplicate points in the
@@ -1696,7 +1699,9 @@ class ConformalizedModel(object):
         conf_model._distance_sensitivity = conf_state["_distance_sensitivity"]
 
         # if the training data is not None, rebuild the KDTree
-        if conf_model._training_data is not None:
+        if conf_model._training_data is not None and tree_util.any(
+            conf_model._distance_sensitivity
+        ):
             flat_data = conf_model._prepare_data_for_kdtree(
                 conf_model._training_data
             )
-- 
2.43.0


From eb44802368936276a320e96e0f66981784fb6cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 57/72] fix: input sensitivity without continuous features

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 7f1304e..484bafe 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -452,6 +452,13 @@ class ConformalizedModel(object):
                 )
             self._input_sensitivity = input_sensitivity
 
+        # derivatives by categorical features are not meaningful
+        self._input_sensitivity = jax.tree.map(
+            lambda s, cont: s and cont,
+            self._input_sensitivity,
+            self._continuous_features,
+        )
+
         if isinstance(distance_sensitivity, bool):
             self._distance_sensitivity = jax.tree.map(
                 lambda _: distance_sensitivity,
-- 
2.43.0


From 0ba4274b1d312758143dc5451df9160414c1ceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 58/72] fix: distance sensitivity of outputs with several axes

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 484bafe..87533d9 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1538,7 +1538,12 @@ class ConformalizedModel(object):
                     clearline=clearline,
                 )
 
-                u = jax.tree.map(lambda x: x + u_dist, u)
+                # one distance per sample, for all entries of the output
+                u = jax.tree.map(
+                    lambda x: x
+                    + u_dist.reshape((n_samples,) + (1,) * (x.ndim - 1)),
+                    u,
+                )
 
         return u
 
-- 
2.43.0


From 0d7a5efb4e2b6c11d2a5680c8673d943fe67234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 59/72] fix: training features that do not vary made the
 distances undefined

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 87533d9..6acbc02 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -655,7 +655,8 @@ class ConformalizedModel(object):
                 if not is_continuous:
                     # a single value, for any number of categories
                     return np.full((1,), 2.0, dtype=feature.dtype)
-                return np.ptp(feature, axis=0)
+                ptp = np.ptp(feature, axis=0)
+                return np.where(ptp == 0, 1, ptp)
 
             self._iqr_X_train = jax.tree.map(
                 compute_iqr,
-- 
2.43.0


From 6660a5b15a340a9d647bd10c44380dfd326ca95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 60/72] fix: too small intervals for alpha < 1 / (n + 1)

---
 .../conformal/conformalizedmodel.py                   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 6acbc02..ffd5f81 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1187,13 +1187,16 @@ class ConformalizedModel(object):
 
         if new_alphas.size > 0:
             n = jax.tree.leaves(self.scores)[0].shape[0]
+            levels = np.ceil((n + 1) * (1 - new_alphas)) / n
             new_qhats = jax.tree.map(
                 # TODO: is there a generalization of quantile for complex
                 # numbers?
-                lambda s: np.quantile(
-                    s,
-                    np.ceil((n + 1) * (1 - new_alphas)) / n,
-                    axis=0,
+                # if there are too few scores for the requested coverage, only
+                # an unbounded interval has it
+                lambda s: np.where(
+                    levels.reshape((-1,) + (1,) * (s.ndim - 1)) > 1,
+                    np.inf,
+                    np.quantile(s, np.minimum(levels, 1), axis=0),
                 ),
                 self.scores,
             )
-- 
2.43.0


From 99561ee4d4a0ad7804794cfe7c1454d64680fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:11 +0000
Subject: [PATCH 61/72] fix: packaged modules counted 0 trainable floats before
 being compiled

---
 parametricmatrixmodels/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index d83aace..774e24b 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -155,7 +155,8 @@ class Model(BaseModule):
             module.get_num_trainable_floats()
             for module in jax.tree.leaves(self.modules)
         ]
-        if None in num_trainable_floats:
+        if len(num_trainable_floats) == 0 or None in num_trainable_floats:
+            # not ready
             return None
         else:
             return sum(num_trainable_floats)
-- 
2.43.0


From be8c6670790458dbd20dfddcbb03bae76f4b4299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:11 +0000
Subject: [PATCH 62/72] fix: set_precision turned integer state into floats

---
 parametricmatrixmodels/modules/basemodule.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parametricmatrixmodels/modules/basemodule.py b/parametricmatrixmodels/modules/basemodule.py
index 5a7099e..e631176 100644
--- a/parametricmatrixmodels/modules/basemodule.py
+++ b/parametricmatrixmodels/modules/basemodule.py
@@ -685,6 +685,9 @@ class BaseModule(ABC):
             Set the precision of a single parameter array, choosing real or
             complex precision based on the original dtype.
             """
+            if not np.issubdtype(p.dtype, np.inexact):
+                # integers, booleans, random keys
+                return p
             if np.iscomplexobj(p):
                 return p.astype(np.complex64 if prec == 32 else np.complex128)
             else:
-- 
2.43.0


From 7ac13358c42f4d559a96f841ecd1dd0cdb080c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:28 +0000
Subject: [PATCH 63/72] fix: BaseModule.astype rejected the documented
 precisions 32 and 64

---
 parametricmatrixmodels/modules/basemodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/basemodule.py b/parametricmatrixmodels/modules/basemodule.py
index e631176..48f12ca 100644
--- a/parametricmatrixmodels/modules/basemodule.py
+++ b/parametricmatrixmodels/modules/basemodule.py
@@ -697,7 +697,7 @@ class BaseModule(ABC):
         self.set_state(jax.tree.map(set_param_prec, self.get_state()))
 
     @jaxtyped(typechecker=beartype)
-    def astype(self, dtype: jax.typing.DTypeLike, /) -> "BaseModule":
+    def astype(self, dtype: jax.typing.DTypeLike | int, /) -> "BaseModule":
         """
         Convenience wrapper to set_precision using the dtype argument, returns
         self.
-- 
2.43.0


From 25e2b76897054a75c012104537e015cc95faaef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:01 +0000
Subject: [PATCH 64/72] fix: models kept callables of the modules before a
 recompilation

Editing a model inside a model, or changing a module, and compiling again
evaluated the previous modules with the new parameters.
---
 parametricmatrixmodels/model.py              | 7 ++++++-
 parametricmatrixmodels/nonsequentialmodel.py | 2 ++
 parametricmatrixmodels/sequentialmodel.py    | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 774e24b..b13e055 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -199,8 +199,13 @@ class Model(BaseModule):
     def reset(self) -> None:
         self.input_shape: DataShape | None = None
         self.output_shape: DataShape | None = None
-        self.callable: ModelCallable | None = None
         self._optimizer_state = None
+        self._clear_callables()
+
+    def _clear_callables(self) -> None:
+        # forget the cached callables, which are only valid for the modules
+        # they were made from
+        self.callable: ModelCallable | None = None
         self.grad_callable_params = None
         self.grad_callable_params_options = None
         self.grad_callable_inputs = None
diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 541a7d1..57d72d6 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -406,6 +406,8 @@ class NonSequentialModel(Model):
         elif isinstance(rng, int):
             rng = jax.random.key(rng)
 
+        self._clear_callables()
+
         if self.is_ready():
             # just validate that the input shape matches the compiled one
             assert jax.tree.structure(self.input_shape) == jax.tree.structure(
diff --git a/parametricmatrixmodels/sequentialmodel.py b/parametricmatrixmodels/sequentialmodel.py
index caa7419..893e964 100644
--- a/parametricmatrixmodels/sequentialmodel.py
+++ b/parametricmatrixmodels/sequentialmodel.py
@@ -129,6 +129,7 @@ class SequentialModel(Model):
         if verbose:
             print(f"Compiling {self.name} for input shape {input_shape}.")
 
+        self._clear_callables()
         self.input_shape = input_shape
 
         for i, module in enumerate(jax.tree.leaves(self.modules)):
-- 
2.43.0


From bb2d105d587433be7bb65b086addd3772eb2a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:21 +0000
Subject: [PATCH 65/72] fix: all modules of a non-sequential model drew the
 same random numbers

---
 parametricmatrixmodels/nonsequentialmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 57d72d6..662b39b 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -888,13 +888,14 @@ class NonSequentialModel(Model):
                     return_remainder=False,
                 )
 
-                # call the module
+                # call the module, each with its own random key
+                rng, module_rng = jax.random.split(rng)
                 out_data, new_module_state = module_callable(
                     module_params,
                     in_data,
                     training,
                     module_state,
-                    rng,
+                    module_rng,
                 )
 
                 # store the output
-- 
2.43.0


From a4cfe993f3cc581456f63574c1007475581abaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:18 +0000
Subject: [PATCH 66/72] fix: non-elementwise activation modules declared the
 wrong output shape

---
 parametricmatrixmodels/modules/activationbase.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/activationbase.py b/parametricmatrixmodels/modules/activationbase.py
index cdb6bcb..cf26088 100644
--- a/parametricmatrixmodels/modules/activationbase.py
+++ b/parametricmatrixmodels/modules/activationbase.py
@@ -16,6 +16,7 @@ from parametricmatrixmodels.typing import (
     Tuple,
 )
 
+from ..tree_util import is_shape_leaf
 from .basemodule import BaseModule
 
 
@@ -146,7 +147,20 @@ class ActivationBase(BaseModule):
         -------
             Output shapes after applying the activation function.
         """
-        return input_shape
+        # not every function is elementwise (e.g. GLU, OneHot)
+        try:
+            output = jax.eval_shape(
+                lambda data: jax.tree.map(self.func, data),
+                jax.tree.map(
+                    lambda s: jax.ShapeDtypeStruct((1, *s), np.float32),
+                    input_shape,
+                    is_leaf=is_shape_leaf,
+                ),
+            )
+        except TypeError:
+            # functions that cannot be applied to floats
+            return input_shape
+        return jax.tree.map(lambda o: o.shape[1:], output)
 
     def get_hyperparameters(self) -> HyperParams:
         """
-- 
2.43.0


From d59b8af666f458013b697c5ed72719fe525ed842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:02 +0000
Subject: [PATCH 67/72] fix: Reshape accepted input structures that it cannot
 reshape

---
 parametricmatrixmodels/modules/reshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/reshape.py b/parametricmatrixmodels/modules/reshape.py
index 05e5455..a7648fd 100644
--- a/parametricmatrixmodels/modules/reshape.py
+++ b/parametricmatrixmodels/modules/reshape.py
@@ -158,7 +158,7 @@ class Reshape(BaseModule):
             promoted = True
 
         # same for self.shape
-        if all(isinstance(dim, int) for dim in self.shape):
+        if promoted:
             selfshape = (self.shape,)
         else:
             selfshape = self.shape
-- 
2.43.0


From ac2c375eebd5677a58e24857ac4ebea7f4269484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:30 +0000
Subject: [PATCH 68/72] fix: weighted MAD depended on the order of tied
 calibration points

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index ffd5f81..4a36bf4 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1832,7 +1832,8 @@ def weighted_quantile(
     quantiles: Real[Array, " q"] | float = 0.5,
 ) -> Inexact[Array, "..."]:
     def weighted_quantile_1d(d, w):
-        idxs = np.argsort(d)
+        # ties are ordered by their weight, independently of the sample order
+        idxs = np.lexsort((w, d))
         cum_weights = np.cumsum(w[idxs])
         return np.interp(quantiles * cum_weights[~0], cum_weights, d[idxs])
 
-- 
2.43.0


From 7d65c71d73a51160fefa6569ab9fc9c3f5c14724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:58 +0000
Subject: [PATCH 69/72] fix: graph connections stripped characters of the
 separator from names

With a separator of several characters (such as '__' or '->'), str.strip
removed any of its characters from the ends of module names and output keys:
'output___x' became the output 'x', and modules named '_x' were not found.
Remove the separator itself instead.
---
 parametricmatrixmodels/graph_util.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/parametricmatrixmodels/graph_util.py b/parametricmatrixmodels/graph_util.py
index 748abda..cb0eea0 100644
--- a/parametricmatrixmodels/graph_util.py
+++ b/parametricmatrixmodels/graph_util.py
@@ -283,11 +283,12 @@ def concretize_connections(
             concretized_connections[key].append(new_value)
 
     # remove double separators
-    # if they're at the begin or end, just remove them,
+    # if they're at the end, just remove them,
     # otherwise replace with single separator
     return {
-        k.replace(double_sep, separator).strip(separator): [
-            v.replace(double_sep, separator).strip(separator) for v in vs
+        k.replace(double_sep, separator).removesuffix(separator): [
+            v.replace(double_sep, separator).removesuffix(separator)
+            for v in vs
         ]
         for k, vs in concretized_connections.items()
     }
@@ -474,7 +475,7 @@ def partition_connections_by_tree(
             new_key = (
                 in_key
                 + double_sep
-                + key.removeprefix(in_key).lstrip(separator)
+                + key.removeprefix(in_key).removeprefix(separator)
             )
         elif key.startswith(out_key + separator) or key == out_key:
             raise ValueError(
@@ -490,7 +491,7 @@ def partition_connections_by_tree(
                 return_remainder=True,
             )
             new_key = (
-                key.removesuffix(key_remainder).rstrip(separator)
+                key.removesuffix(key_remainder).removesuffix(separator)
                 + double_sep
                 + key_remainder
             )
@@ -500,7 +501,7 @@ def partition_connections_by_tree(
                 new_v = (
                     out_key
                     + double_sep
-                    + v.removeprefix(out_key).lstrip(separator)
+                    + v.removeprefix(out_key).removeprefix(separator)
                 )
                 new_values.append(new_v)
                 continue
@@ -655,10 +656,7 @@ def place_connections_in_tree(
     else:
         output_remainder = extend_structure_from_strpaths(
             None,
-            [
-                k.removeprefix(f"{out_key}{separator}").strip(separator)
-                for k in output_keys
-            ],
+            [k.removeprefix(f"{out_key}{separator}") for k in output_keys],
             separator=separator,
             fill_values=[reversed_conn[k] for k in output_keys],
         )
@@ -666,7 +664,7 @@ def place_connections_in_tree(
     placed_tree = extend_structure_from_strpaths(
         None,
         [
-            k.strip(separator)
+            k
             for k in reversed_conn
             if not k.startswith(out_key + separator)
         ],
-- 
2.43.0


From bea98da0fe3ca54fdebc7d14f38d5d53cdcd8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:58 +0000
Subject: [PATCH 70/72] fix: __all__ of the modules listed a module that does
 not exist

'from parametricmatrixmodels.modules import *' raised an AttributeError.
---
 parametricmatrixmodels/modules/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/__init__.py b/parametricmatrixmodels/modules/__init__.py
index 5ce432b..f6a47e7 100644
--- a/parametricmatrixmodels/modules/__init__.py
+++ b/parametricmatrixmodels/modules/__init__.py
@@ -136,7 +136,6 @@ __all__ = [  # noqa: F405
     "Exp2",
     "Expm1",
     "FAbs",
-    "Fix",
     "FloatPower",
     "Floor",
     "FloorDivide",
-- 
2.43.0


From 5127db4fd92aceb4dd56569787736fec788b2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:51 +0000
Subject: [PATCH 71/72] fix: copies of modules and models shared their
 containers

copy() and serialize()/deserialize() handed over the dictionaries and lists
of the hyperparameters (such as the connections of a NonSequentialModel),
parameters and state themselves, so that changing them in place in one of the
two objects changed the other.
---
 parametricmatrixmodels/modules/basemodule.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/modules/basemodule.py b/parametricmatrixmodels/modules/basemodule.py
index 48f12ca..a4a8d6e 100644
--- a/parametricmatrixmodels/modules/basemodule.py
+++ b/parametricmatrixmodels/modules/basemodule.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 import inspect
 import warnings
 from abc import ABC, abstractmethod
+from copy import deepcopy
 
 import jax
 import jax.numpy as np
@@ -816,11 +817,12 @@ class BaseModule(ABC):
                 RuntimeWarning,
             )
 
+        # the containers of the module may be changed in place later
         return {
             "name": self.name,
-            "hyperparameters": autoserializable_hyperparameters,
-            "params": self.get_params(),
-            "state": self.get_state(),
+            "hyperparameters": deepcopy(autoserializable_hyperparameters),
+            "params": deepcopy(self.get_params()),
+            "state": deepcopy(self.get_state()),
             "trainable": self.trainable,
             "package_version": pmm.__version__,
             "module_version": self.__version__,
@@ -877,17 +879,19 @@ class BaseModule(ABC):
             data = self.upgrade(data)
 
         # set the hyperparameters
-        self.set_hyperparameters(data.get("hyperparameters", {}))
+        # (the module must not share containers with the serialized data, which
+        # can be deserialized again)
+        self.set_hyperparameters(deepcopy(data.get("hyperparameters", {})))
 
         # if there are trainable parameters, set them
         params = data.get("params", None)
         if params is not None:
-            self.set_params(params)
+            self.set_params(deepcopy(params))
 
         # if there are states, set them
         state = data.get("state", None)
         if state is not None:
-            self.set_state(state)
+            self.set_state(deepcopy(state))
 
         # optionally set the trainable flag
         trainable = data.get("trainable", None)
-- 
2.43.0


From dd29d21259b5dc598e68b4fac0624e0aa5ff2a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:31 +0000
Subject: [PATCH 72/72] fix: StandardScaler divided features that do not vary
 by rounding errors

---
 .../preprocessing/standard_scaler.py                  | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/standard_scaler.py b/parametricmatrixmodels/preprocessing/standard_scaler.py
index a32b3cc..a548494 100644
--- a/parametricmatrixmodels/preprocessing/standard_scaler.py
+++ b/parametricmatrixmodels/preprocessing/standard_scaler.py
@@ -42,9 +42,16 @@ class StandardScaler(Scaler):
                 The fitted scaler instance.
         """
         self.mean_ = jax.tree.map(lambda x: np.mean(x, axis=0), X)
-        # features that do not vary are only centered
+        # features that do not vary are only centered (their computed standard
+        # deviation can be a rounding error instead of exactly zero)
         self.scale_ = jax.tree.map(
-            lambda x: np.where((std := np.std(x, axis=0)) == 0, 1, std), X
+            lambda x: np.where(
+                (np.max(x, axis=0) == np.min(x, axis=0))
+                | ((std := np.std(x, axis=0)) == 0),
+                1,
+                std,
+            ),
+            X,
         )
 
         return self
-- 
2.43.0

