From 9b5d556d8f2d6ec9761023ac4f3bdd94e5de3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:08 +0000
Subject: [PATCH 01/25] fix: SteinThinning must select points with the induced
 Stein kernel

The converted Stein kernel was only used for its score function; the kernel
diagonal and similarity penalty used the raw base kernel, so whenever the
solver was not given a ready-made SteinKernel (or a score_matching override was
supplied) the greedy objective was not the kernel Stein discrepancy.
---
 coreax/solvers/coresubset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index bc1198b..d89b3b8 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -504,7 +504,7 @@ class SteinThinning(
         """
         x, w_x = jtu.tree_leaves(coresubset.pre_coreset_data)
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
-        stein_kernel_diagonal = jax.vmap(self.kernel.compute_elementwise)(x, x)
+        stein_kernel_diagonal = jax.vmap(kernel.compute_elementwise)(x, x)
         if self.regularise:
             kde = jsp.stats.gaussian_kde(x.T, weights=w_x, bw_method=self.kde_bw_method)
 
@@ -543,7 +543,7 @@ class SteinThinning(
             coresubset,
             selection_function,
             self.coreset_size,
-            self.kernel,
+            kernel,
             self.unique,
             self.block_size,
             self.unroll,
-- 
2.43.0


From 303f69a3d1c69cca0c589676932b1c4e2a23e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:08 +0000
Subject: [PATCH 02/25] fix: probabilistic KernelHerding must ignore
 zero-weighted data

The NaN residual that marks zero-weighted data made every softmax probability
NaN, so that index 0 was selected at every iteration.
---
 coreax/solvers/coresubset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index d89b3b8..6c8f9ed 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -342,6 +342,10 @@ class KernelHerding(
 
             # Apply softmax to the metric for probabilistic selection
             if self.probabilistic:
+                # Zero-weighted data has a NaN residual; it must never be selected
+                valid_residuals = jnp.where(
+                    jnp.isnan(valid_residuals), -jnp.inf, valid_residuals
+                )
                 probs = jax.nn.softmax(valid_residuals / self.temperature)
                 key = jr.fold_in(self.random_key, i)
                 return jr.choice(
-- 
2.43.0


From 757f6080930dd25ddf87403cf52e13225d78aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:08 +0000
Subject: [PATCH 03/25] fix: unsupervised solvers and KSD accept SupervisedData

Unpacking the tree leaves of the dataset raised a ValueError for supervised
datasets, which have three leaves.
---
 coreax/metrics.py               | 3 +--
 coreax/solvers/coresubset.py    | 7 ++++---
 coreax/solvers/recombination.py | 7 ++++---
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/coreax/metrics.py b/coreax/metrics.py
index 7848bc5..cfde3b5 100644
--- a/coreax/metrics.py
+++ b/coreax/metrics.py
@@ -30,7 +30,6 @@ import equinox as eqx
 import jax
 import jax.numpy as jnp
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, Shaped
 
 import coreax.util
@@ -246,7 +245,7 @@ class KSD(Metric[Data]):
         """
         del kwargs
         # Train Stein kernel with data from P
-        x, w_x = jtu.tree_leaves(reference_data)
+        x, w_x = reference_data.data, reference_data.weights
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
 
         # Variable rename allows for nicer automatic formatting.
diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 6c8f9ed..d161270 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -24,7 +24,6 @@ import jax
 import jax.numpy as jnp
 import jax.random as jr
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, ArrayLike, Bool, Float, Scalar, Shaped
 from typing_extensions import override
 
@@ -161,7 +160,8 @@ def _greedy_kernel_selection(
     # The kernel similarity penalty must be computed for the initial coreset. If we did
     # not support refinement, the penalty could be initialised to the zeroes vector, and
     # the result would be invariant to the initial coresubset.
-    data, data_weights = jtu.tree_leaves(coresubset.pre_coreset_data)
+    data = coresubset.pre_coreset_data.data
+    data_weights = coresubset.pre_coreset_data.weights
     init_kernel_similarity_penalty = init_coreset_size * kernel.compute_mean(
         data,
         padded_coresubset.points,
@@ -506,7 +506,8 @@ class SteinThinning(
         :return: A refined coresubset and relevant intermediate solver state
             information.
         """
-        x, w_x = jtu.tree_leaves(coresubset.pre_coreset_data)
+        x = coresubset.pre_coreset_data.data
+        w_x = coresubset.pre_coreset_data.weights
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
         stein_kernel_diagonal = jax.vmap(kernel.compute_elementwise)(x, x)
         if self.regularise:
diff --git a/coreax/solvers/recombination.py b/coreax/solvers/recombination.py
index a89579d..1852de0 100644
--- a/coreax/solvers/recombination.py
+++ b/coreax/solvers/recombination.py
@@ -92,7 +92,6 @@ from typing import Generic, Literal, NamedTuple, TypeVar
 import jax
 import jax.numpy as jnp
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, Bool, DTypeLike, Float, Integer, Real, Shaped
 from typing_extensions import override
 
@@ -181,7 +180,8 @@ class CaratheodoryRecombination(RecombinationSolver[Data, None]):
     def reduce(
         self, dataset: Data, solver_state: None = None
     ) -> tuple[Coresubset, None]:
-        nodes, weights = jtu.tree_leaves(dataset.normalize(preserve_zeros=True))
+        normalized_dataset = dataset.normalize(preserve_zeros=True)
+        nodes, weights = normalized_dataset.data, normalized_dataset.weights
         push_forward_nodes = _push_forward(nodes, self.test_functions)
         # Handle pre-existing zero-weighted nodes (not handled by the base algorithm
         # described in :cite:`tchernychova2016recombination`)
@@ -504,7 +504,8 @@ class TreeRecombination(RecombinationSolver[Data, None]):
     def reduce(
         self, dataset: Data, solver_state: None = None
     ) -> tuple[Coresubset, None]:
-        nodes, weights = jtu.tree_leaves(dataset.normalize(preserve_zeros=True))
+        normalized_dataset = dataset.normalize(preserve_zeros=True)
+        nodes, weights = normalized_dataset.data, normalized_dataset.weights
         # Push the nodes forward through the test-functions \Phi^\prime.
         push_forward_nodes = _push_forward(nodes, self.test_functions, augment=False)
         n, m = push_forward_nodes.shape
-- 
2.43.0


From a7d631d5a9b440cc3112cc5e0902b73f4c6857bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:56 +0000
Subject: [PATCH 04/25] fix: GreedyKernelPoints must not select its own padding

With a candidate batch and unique=False, the -1 padding column was a valid
candidate, so that reduce could return negative coreset indices.
---
 coreax/solvers/coresubset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index d161270..de3fd62 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1014,6 +1014,8 @@ def _update_candidate_coresets_and_coreset_indices(
             coreset_indices.at[i].set(-1),
         )
         loss += jnp.where(already_chosen_indices_mask, jnp.inf, 0)
+    # Negative indices are padding rather than data, so can never be chosen
+    loss = jnp.where(candidate_coresets[:, i] < 0, jnp.inf, loss)
     index_to_include_in_coreset = candidate_coresets[loss.argmin(), i]
 
     # Repeat the chosen coreset index into the ith column of the array of
-- 
2.43.0


From 640d79a4818631cf1be5f9c544856a08eb5d5d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:56 +0000
Subject: [PATCH 05/25] fix: gradients of a constant kernel have the shape of
 the input

A scalar zero gradient made the divergence of a kernel multiplied by a constant
a d-vector instead of a scalar, which in turn broke Stein kernels over such
kernels.
---
 coreax/kernels/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 0e4b74d..8485e8a 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -608,11 +608,11 @@ class _Constant(ScalarValuedKernel):
 
     @override
     def grad_x_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros_like(x, dtype=float)
 
     @override
     def grad_y_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros_like(y, dtype=float)
 
     @override
     def divergence_x_grad_y_elementwise(self, x, y):
-- 
2.43.0


From 2ee3275501b96898d8dc2afe90a39d3da10158eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:56 +0000
Subject: [PATCH 06/25] fix: divergence of PowerKernel with unit power where
 the kernel is zero

The vanishing second term was evaluated as 0 * 0**-1, which is NaN.
---
 coreax/kernels/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 8485e8a..3b72462 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -683,6 +683,8 @@ class PowerKernel(UniCompositeKernel, ScalarValuedKernel):
     @override
     def divergence_x_grad_y_elementwise(self, x, y):
         n = self.power
+        if n == 1:
+            return self.base_kernel.divergence_x_grad_y_elementwise(x, y)
         compute = self.base_kernel.compute_elementwise(x, y)
         return n * (
             (
-- 
2.43.0


From 72102ce2d1fc03969c8862d3f853f410afc66fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:56 +0000
Subject: [PATCH 07/25] fix: TreeRecombination must not return indices of its
 own padding

The implicitly removed (zero-weighted) nodes could refer to the padding added to
balance the tree, giving coresubset indices that are out of bounds.
---
 coreax/solvers/recombination.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coreax/solvers/recombination.py b/coreax/solvers/recombination.py
index 1852de0..c2831b8 100644
--- a/coreax/solvers/recombination.py
+++ b/coreax/solvers/recombination.py
@@ -562,6 +562,9 @@ class TreeRecombination(RecombinationSolver[Data, None]):
 
         in_state = (jnp.pad(weights, (0, padding)), jnp.arange(n + padding))
         out_weights, indices = jax.lax.fori_loop(0, depth, _tree_reduce, in_state)
+        # Zero-weighted nodes may refer to the padding; point them at a removed node.
+        node_weights = jnp.zeros_like(weights).at[indices].add(out_weights, mode="drop")
+        indices = jnp.where(indices < n, indices, jnp.argmin(node_weights))
         coresubset_nodes = _coresubset_nodes(
             push_forward_nodes, out_weights, indices, self.mode
         )
-- 
2.43.0


From 25a79e5a1fc013072acab929b63c2d0af877e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:56 +0000
Subject: [PATCH 08/25] fix: KernelThinning with duplicated points and with
 64-bit floats

A pair of coincident points gave a NaN sigma, which disabled the balancing of
all subsequent pairs. The float32 initial value of sigma prevented the solver
from running at all if jax_enable_x64 is set.
---
 coreax/solvers/coresubset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index de3fd62..0d65295 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1463,7 +1463,7 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
         coresets_masking = jnp.zeros(n)
 
         # Initialise parameter
-        sigma = jnp.float32(0)
+        sigma = jnp.asarray(0.0)
         k = self.sqrt_kernel.compute_elementwise
 
         def compute_kernel_distance(x1, x2):
@@ -1474,7 +1474,7 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
             :param x2: The second data point.
             :return: The kernel distance between `x1` and `x2`.
             """
-            return jnp.sqrt(k(x1, x1) + k(x2, x2) - 2 * k(x1, x2))
+            return jnp.sqrt(jnp.clip(k(x1, x1) + k(x2, x2) - 2 * k(x1, x2), min=0))
 
         def get_a_and_sigma(b, sigma):
             """Compute 'a' and new sigma parameter."""
@@ -1485,7 +1485,8 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
                 sigma**2 + jnp.maximum(b**2 * (1 + (b**2 - 2 * a) * sigma**2 / a**2), 0)
             )
 
-            return a, new_sigma
+            # If b is zero the points are indistinguishable so there is nothing to learn
+            return a, jnp.where(a > 0, new_sigma, sigma)
 
         def get_alpha(
             x1: Float[Array, "1 d"],
-- 
2.43.0


From 41081aabdb9ae93f19127aceb450cd14252da112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:56 +0000
Subject: [PATCH 09/25] fix: MapReduce must terminate for every valid leaf_size

Partitions hold between leaf_size / 2 and leaf_size points, so for coreset_size
above leaf_size / 2 the base solver was asked for more points than present in
the partition, or the recursion did not reduce the number of points.
---
 coreax/solvers/composite.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/composite.py b/coreax/solvers/composite.py
index b66a4d6..3143efa 100644
--- a/coreax/solvers/composite.py
+++ b/coreax/solvers/composite.py
@@ -161,8 +161,11 @@ class MapReduce(
                     return x.points, x.indices.data
                 return x.points, None
 
+            # Each partition must contain more points than the base solver selects from
+            # it, otherwise the base solver fails or the recursion never terminates.
+            partition_size = max(self.leaf_size, 2 * self.base_solver.coreset_size)
             partitioned_dataset, partitioned_indices = _jit_tree(
-                data, self.leaf_size, self.tree_type
+                data, partition_size, self.tree_type
             )
             # Reduce each partition and get indices from each
             coreset_ensemble, ensemble_indices = jax.vmap(wrapper)(partitioned_dataset)
-- 
2.43.0


From 9c2f990c557994859cc543ddb47c0935e44dd53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:15 +0000
Subject: [PATCH 10/25] fix: MapReduce must not select its own padding

The zero-valued padding points are coincident, so the tree puts them in the same
partition. The base solver then had to select padding or duplicates in that
partition, and these gained unit weight in the next reduction. For example,
with 65 points, leaf_size=8 and coreset_size=3 up to 12 phantom points at the
origin took part in the reduction.
---
 coreax/solvers/composite.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/coreax/solvers/composite.py b/coreax/solvers/composite.py
index 3143efa..604447f 100644
--- a/coreax/solvers/composite.py
+++ b/coreax/solvers/composite.py
@@ -229,11 +229,20 @@ def _jit_tree(
     shape = (n_leaves, len(padded_dataset) // n_leaves)
     result_shape = jax.ShapeDtypeStruct(shape, jnp.int32)
 
+    # The padding is kept out of the tree and spread over the partitions, so that every
+    # partition contains at most one padding point. Otherwise, a partition could contain
+    # fewer points than the base solver must select from it.
+    n_full = n_leaves - padding
+
     def _binary_tree(_input_data: Data) -> np.ndarray:
         _, node_indices, _, _ = tree_type(
             _input_data.data, leaf_size=_leaf_size, sample_weight=_input_data.weights
         ).get_arrays()
-        return node_indices.reshape(n_leaves, -1).astype(np.int32)
+        full, short = np.split(np.asarray(node_indices), [n_full * shape[1]])
+        padding_indices = np.arange(len(dataset), len(dataset) + padding)
+        short = np.column_stack((short.reshape(padding, shape[1] - 1), padding_indices))
+        partitions = np.vstack((full.reshape(n_full, shape[1]), short))
+        return partitions.astype(np.int32)
 
-    indices = jax.pure_callback(_binary_tree, result_shape, padded_dataset)
+    indices = jax.pure_callback(_binary_tree, result_shape, dataset)
     return padded_dataset[indices], jnp.arange(len(dataset))[indices]
-- 
2.43.0


From b9f0825eb5ffe56a0baa64759b7e028f76244d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:08 +0000
Subject: [PATCH 11/25] fix: SteinThinning must ignore zero-weighted data in
 its default score function

The kernel density estimate behind the score function was fitted to all points
regardless of their weight, so the result was not padding invariant.
---
 coreax/score_matching.py     | 26 +++++++++++++++++++++-----
 coreax/solvers/coresubset.py |  2 +-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/coreax/score_matching.py b/coreax/score_matching.py
index e215568..295724b 100644
--- a/coreax/score_matching.py
+++ b/coreax/score_matching.py
@@ -47,6 +47,7 @@ from jaxtyping import Array, DTypeLike, Float, Shaped
 from tqdm import tqdm
 from typing_extensions import override
 
+from coreax.data import Data
 from coreax.kernels import ScalarValuedKernel, SquaredExponentialKernel, SteinKernel
 from coreax.networks import ScoreNetwork, _LearningRateOptimiser, create_train_state
 from coreax.util import KeyArrayLike
@@ -371,7 +372,7 @@ class KernelDensityMatching(ScoreMatching):
         super().__init__()
 
     @override
-    def match(self, x):
+    def match(self, x, weights: Shaped[Array, " n"] | None = None):
         r"""
         Learn a score function using kernel density estimation to model a distribution.
 
@@ -384,9 +385,11 @@ class KernelDensityMatching(ScoreMatching):
 
         :param x: Set of :math:`n \times d` samples from the underlying distribution
             that are used to build the kernel density estimate
+        :param weights: Weights of the samples ``x``; uniform if :data:`None`
         :return: A function that applies the learned score function to input ``x``
         """
         kde_data = x
+        weighted_kde_data = x if weights is None else Data(x, weights)
 
         @overload
         def score_function(
@@ -420,10 +423,14 @@ class KernelDensityMatching(ScoreMatching):
             x_ = jnp.atleast_2d(x_)
 
             # Get the gram matrix row-mean
-            gram_matrix_row_means = self.kernel.compute_mean(x_, kde_data, axis=1)
+            gram_matrix_row_means = self.kernel.compute_mean(
+                x_, weighted_kde_data, axis=1
+            )
 
             # Compute gradients with respect to x
-            gradients = self.kernel.grad_x(x_, kde_data).mean(axis=1)
+            gradients = jnp.average(
+                self.kernel.grad_x(x_, kde_data), axis=1, weights=weights
+            )
 
             # Compute final evaluation of the score function
             score_result = gradients / gram_matrix_row_means[:, None]
@@ -442,6 +449,7 @@ def convert_stein_kernel(
     x: Shaped[Array, " n d"],
     kernel: ScalarValuedKernel,
     score_matching: ScoreMatching | None,
+    weights: Shaped[Array, " n"] | None = None,
 ) -> SteinKernel:
     r"""
     Convert the kernel to a :class:`~coreax.kernels.SteinKernel`.
@@ -458,12 +466,20 @@ def convert_stein_kernel(
        :class:`~coreax.score_matching.KernelDensityMatching` unless 'kernel' is a
        :class:`~coreax.kernels.SteinKernel`, in which case the kernel's existing score
        function is used.
+    :param weights: Weights of the data ``x``, used to call
+        `score_matching.match(x, weights)` if supported by ``score_matching``
     :return: The (potentially) converted/updated :class:`~coreax.kernels.SteinKernel`.
     """
+
+    def _match(score_matching: ScoreMatching) -> Callable:
+        if isinstance(score_matching, KernelDensityMatching):
+            return score_matching.match(x, weights)
+        return score_matching.match(x)
+
     if isinstance(kernel, SteinKernel):
         if score_matching is not None:
             _kernel = eqx.tree_at(
-                lambda x: x.score_function, kernel, score_matching.match(x)
+                lambda x: x.score_function, kernel, _match(score_matching)
             )
         else:
             _kernel = kernel
@@ -471,5 +487,5 @@ def convert_stein_kernel(
         if score_matching is None:
             length_scale = getattr(kernel, "length_scale", 1.0)
             score_matching = KernelDensityMatching(length_scale)
-        _kernel = SteinKernel(kernel, score_function=score_matching.match(x))
+        _kernel = SteinKernel(kernel, score_function=_match(score_matching))
     return _kernel
diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 0d65295..ad342e8 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -508,7 +508,7 @@ class SteinThinning(
         """
         x = coresubset.pre_coreset_data.data
         w_x = coresubset.pre_coreset_data.weights
-        kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
+        kernel = convert_stein_kernel(x, self.kernel, self.score_matching, w_x)
         stein_kernel_diagonal = jax.vmap(kernel.compute_elementwise)(x, x)
         if self.regularise:
             kde = jsp.stats.gaussian_kde(x.T, weights=w_x, bw_method=self.kde_bw_method)
-- 
2.43.0


From a350dfea7fb6f3952bbd910e289fb97624f78baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:21 +0000
Subject: [PATCH 12/25] fix: GreedyKernelPoints with unique=True must not
 select duplicates

If all candidates of a batch were already in the coreset, they all had infinite
loss and the first of them was selected again.
---
 coreax/solvers/coresubset.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index ad342e8..dbd4b0c 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1017,6 +1017,17 @@ def _update_candidate_coresets_and_coreset_indices(
     # Negative indices are padding rather than data, so can never be chosen
     loss = jnp.where(candidate_coresets[:, i] < 0, jnp.inf, loss)
     index_to_include_in_coreset = candidate_coresets[loss.argmin(), i]
+    if unique:
+        # If every candidate in the batch is already in the coreset, use the first index
+        # that is not; there is always one amongst the first 'coreset_size' indices.
+        first_available_index = jnp.isin(
+            jnp.arange(len(coreset_indices)), coreset_indices.at[i].set(-1)
+        ).argmin()
+        index_to_include_in_coreset = jnp.where(
+            jnp.all(jnp.isposinf(loss)),
+            first_available_index,
+            index_to_include_in_coreset,
+        )
 
     # Repeat the chosen coreset index into the ith column of the array of
     # the candidate_batch_size x coreset_size candidate_coresets array. Replace the
-- 
2.43.0


From ef6b641bf3f65fdca384fd8793efc87613d159e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:05 +0000
Subject: [PATCH 13/25] fix: gradients of MaternKernel where its arguments
 coincide

For degree one and above the Matern kernel is differentiable everywhere, but
automatic differentiation of the norm gave NaN gradients and divergence when
x=y, which made every Stein kernel, KSD and SteinThinning with it NaN.
---
 coreax/kernels/scalar_valued.py | 38 +++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/coreax/kernels/scalar_valued.py b/coreax/kernels/scalar_valued.py
index 2488e5e..432abcd 100644
--- a/coreax/kernels/scalar_valued.py
+++ b/coreax/kernels/scalar_valued.py
@@ -521,6 +521,44 @@ class MaternKernel(ScalarValuedKernel):
             summation = mapped_function(body, jnp.arange(self.degree + 1)).sum()
         return factor * summation
 
+    def _lower_degree(self) -> "MaternKernel":
+        """Return the kernel of one degree less, with the same exponential decay."""
+        scale = (2 * self.degree - 1) / (2 * self.degree + 1)
+        return eqx.tree_at(
+            lambda k: (k.length_scale, k.degree),
+            self,
+            (self.length_scale * scale**0.5, self.degree - 1),
+        )
+
+    @override
+    def grad_x_elementwise(self, x, y):
+        return -self.grad_y_elementwise(x, y)
+
+    @override
+    def grad_y_elementwise(self, x, y):
+        # Automatic differentiation of the norm is undefined at x=y, so relate the
+        # gradient to the kernel of one degree less. The exception is the kernel of
+        # degree zero, which is not differentiable at x=y.
+        if self.degree == 0:
+            return super().grad_y_elementwise(x, y)
+        factor = (2 * self.degree + 1) / ((2 * self.degree - 1) * self.length_scale**2)
+        k = self._lower_degree().compute_elementwise(x, y)
+        return factor * jnp.subtract(x, y) * k
+
+    @override
+    def divergence_x_grad_y_elementwise(self, x, y):
+        if self.degree == 0:
+            return super().divergence_x_grad_y_elementwise(x, y)
+        d = len(jnp.asarray(x))
+        factor = (2 * self.degree + 1) / ((2 * self.degree - 1) * self.length_scale**2)
+        lower_degree_kernel = self._lower_degree()
+        k = lower_degree_kernel.compute_elementwise(x, y)
+        if self.degree == 1:
+            norm = jnp.linalg.norm(jnp.subtract(x, y))
+            return factor * k * (d - norm / lower_degree_kernel.length_scale)
+        grad_x = lower_degree_kernel.grad_x_elementwise(x, y)
+        return factor * (d * k + jnp.dot(grad_x, jnp.subtract(x, y)))
+
 
 class PeriodicKernel(ScalarValuedKernel):
     r"""
-- 
2.43.0


From 05051efdbdbb39bd4502528221f99f783bc5973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:44 +0000
Subject: [PATCH 14/25] fix: SlicedScoreMatching must not recompile its
 training step at every epoch

---
 coreax/score_matching.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coreax/score_matching.py b/coreax/score_matching.py
index 295724b..98466ed 100644
--- a/coreax/score_matching.py
+++ b/coreax/score_matching.py
@@ -320,6 +320,9 @@ class SlicedScoreMatching(ScoreMatching):
         state = create_train_state(
             state_key, score_network, self.learning_rate, data_dimension, self.optimiser
         )
+        # An integer step counter would be static, hence force a recompilation of
+        # '_train_step' at every epoch
+        state = state.replace(step=jnp.asarray(state.step))
         loop_keys = jr.split(batch_key, self.num_epochs)
 
         # Carry out main training loop to fit the neural network
-- 
2.43.0


From 8348fc454aa79ce19bc72ba655b54becfe63d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:48 +0000
Subject: [PATCH 15/25] fix: mask selected members even if a padding index
 coincides with them

When refining a coresubset smaller than coreset_size, the zero-weighted padding
(index 0) wrote the unmasked penalty over the infinite penalty of member 0, so
row 0 could be chosen while it was already in the coresubset.
---
 coreax/solvers/coresubset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index dbd4b0c..9c494cf 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -195,11 +195,11 @@ def _greedy_kernel_selection(
         if unique:  # Temporarily exclude other coreset members from being selected
             valid_kernel_similarity_penalty = valid_kernel_similarity_penalty.at[
                 coreset_indices
-            ].set(
+            ].max(
                 jnp.where(
                     (coreset_indices != coreset_indices[i]) & (coreset_weights > 0),
                     jnp.inf,
-                    valid_kernel_similarity_penalty[coreset_indices],
+                    -jnp.inf,
                 )
             )
         updated_coreset_index = selection_function(
-- 
2.43.0


From 87c5f535b00d9e51791fcb12d9caacb1a547a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:42 +0000
Subject: [PATCH 16/25] fix: default Stein thinning regularisation is
 1/coreset_size when refining

refine used the size of the initial coresubset instead of the documented
coreset_size, which differ when the initial coresubset is smaller or larger.
---
 coreax/solvers/coresubset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 9c494cf..f3305f5 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -515,7 +515,7 @@ class SteinThinning(
 
             if self.regulariser_lambda is None:
                 # Use regularisation parameter suggested in :cite:`benard2023kernel`
-                regulariser_lambda = 1 / len(coresubset)
+                regulariser_lambda = 1 / self.coreset_size
             else:
                 regulariser_lambda = self.regulariser_lambda
 
-- 
2.43.0


From 8d83684c4805c6474366f5c22f3c186312af257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:15 +0000
Subject: [PATCH 17/25] fix: placeholder indices must not make the greedy
 penalty NaN

Padding indices pointed at row 0. If that row is zero-weighted and far from the
other data, its score (hence the Stein kernel) is NaN, as was every penalty, and
index -1 was returned.
---
 coreax/solvers/coresubset.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index f3305f5..bcdb4b7 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -150,6 +150,18 @@ def _greedy_kernel_selection(
     # with zero valued and weighted indices.
     padding = max(0, output_size - len(coresubset))
     padded_indices = tree_zero_pad_leading_axis(coresubset.indices, padding)
+    # Zero-weighted indices are placeholders. Point them at a valid data point, as the
+    # kernel is not necessarily finite for zero-weighted data.
+    placeholder_index = jnp.argmax(coresubset.pre_coreset_data.weights)
+    padded_indices = eqx.tree_at(
+        lambda x: x.data,
+        padded_indices,
+        jnp.where(
+            padded_indices.weights[:, None] > 0,
+            padded_indices.data,
+            placeholder_index.astype(padded_indices.data.dtype),
+        ),
+    )
     padded_coresubset = eqx.tree_at(lambda x: x.indices, coresubset, padded_indices)
 
     # Calculate the actual size of the provided `coresubset` assuming 0-weighted
-- 
2.43.0


From df7b97832592c76e87d6a97d7c7b757877b10e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:39 +0000
Subject: [PATCH 18/25] fix: KernelThinning lost a halving step to floating
 point error

For e.g. n=26 and coreset_size=13, log2(n) - log2(coreset_size) is just below
one, so no kernel halving was performed.
---
 coreax/solvers/coresubset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index bcdb4b7..db36471 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1404,7 +1404,8 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
         if self.coreset_size > len(dataset):
             raise ValueError(MSG)
         n = len(dataset)
-        m = math.floor(math.log2(n) - math.log2(self.coreset_size))
+        # Integer arithmetic avoids losing a halving step to floating point error
+        m = (n // self.coreset_size).bit_length() - 1
         clipped_original_dataset = dataset[: self.coreset_size * 2**m]
 
         partition = self.kt_half_recursive(clipped_original_dataset, m, dataset)
-- 
2.43.0


From b19ba655c6052cbf78f07f37ab8bc6471a16ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:38 +0000
Subject: [PATCH 19/25] fix: SteinThinning returned index -1 for data with a
 singular covariance

The density estimate used for entropic regularisation is NaN if, e.g., a column
of the data is constant or there are no more rows than columns, so every
candidate was discarded.
---
 coreax/solvers/coresubset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index db36471..8057be9 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -531,7 +531,12 @@ class SteinThinning(
             else:
                 regulariser_lambda = self.regulariser_lambda
 
-            regularised_log_pdf = regulariser_lambda * kde.logpdf(x.T)
+            # The density estimate is undefined (NaN) if the covariance of the data is
+            # singular, in which case there is no entropic regularisation.
+            log_pdf = kde.logpdf(x.T)
+            regularised_log_pdf = regulariser_lambda * jnp.where(
+                jnp.isnan(log_pdf), 0.0, log_pdf
+            )
 
             @jax.vmap
             def _laplace_positive(x_):
-- 
2.43.0


From 24c0ff6d0d95fd7ceda82699fc0275889a91349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:58 +0000
Subject: [PATCH 20/25] fix: KernelDensityMatching score must be finite far
 from the data

---
 coreax/score_matching.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/coreax/score_matching.py b/coreax/score_matching.py
index 98466ed..088f83a 100644
--- a/coreax/score_matching.py
+++ b/coreax/score_matching.py
@@ -47,10 +47,9 @@ from jaxtyping import Array, DTypeLike, Float, Shaped
 from tqdm import tqdm
 from typing_extensions import override
 
-from coreax.data import Data
 from coreax.kernels import ScalarValuedKernel, SquaredExponentialKernel, SteinKernel
 from coreax.networks import ScoreNetwork, _LearningRateOptimiser, create_train_state
-from coreax.util import KeyArrayLike
+from coreax.util import KeyArrayLike, difference, pairwise, squared_distance
 
 _RandomGenerator = Callable[[KeyArrayLike, Sequence[int], DTypeLike], Array]
 
@@ -392,7 +391,7 @@ class KernelDensityMatching(ScoreMatching):
         :return: A function that applies the learned score function to input ``x``
         """
         kde_data = x
-        weighted_kde_data = x if weights is None else Data(x, weights)
+        log_weights = 0.0 if weights is None else jnp.log(weights)
 
         @overload
         def score_function(
@@ -425,18 +424,18 @@ class KernelDensityMatching(ScoreMatching):
             original_number_of_dimensions = jnp.asarray(x_).ndim
             x_ = jnp.atleast_2d(x_)
 
-            # Get the gram matrix row-mean
-            gram_matrix_row_means = self.kernel.compute_mean(
-                x_, weighted_kde_data, axis=1
-            )
-
-            # Compute gradients with respect to x
-            gradients = jnp.average(
-                self.kernel.grad_x(x_, kde_data), axis=1, weights=weights
-            )
+            # The gradient of the log of the kernel density estimate is the average of
+            # the gradients of the log of the kernel, weighted by the contribution of
+            # each point in the data to the estimate. These contributions are normalised
+            # before they can underflow, such that the result is finite at any distance
+            # from the data.
+            scale = self.kernel.length_scale**2
+            log_kernel = -pairwise(squared_distance)(x_, kde_data) / (2 * scale)
+            contributions = jax.nn.softmax(log_kernel + log_weights, axis=1)
+            gradients = -pairwise(difference)(x_, kde_data) / scale
 
             # Compute final evaluation of the score function
-            score_result = gradients / gram_matrix_row_means[:, None]
+            score_result = jnp.sum(contributions[..., None] * gradients, axis=1)
 
             # Ensure output format accounts for 1-dimensional inputs as-well as
             # multi-dimensional ones
-- 
2.43.0


From 50d0853383a0413dfbd7d764b9f4c00878ec4617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:57 +0000
Subject: [PATCH 21/25] fix: weights optimisers must use the weights of the
 dataset

---
 coreax/weights.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/weights.py b/coreax/weights.py
index 3ece129..7578d09 100644
--- a/coreax/weights.py
+++ b/coreax/weights.py
@@ -136,9 +136,9 @@ def _prepare_kernel_system(
         and type(coreset) is Data
         and isinstance(kernel, ScalarValuedKernel)
     ):
-        x_d, x_c = dataset.data, coreset.data
+        x_c = coreset.data
         kernel_cd = kernel.compute_mean(
-            x_d, x_c, axis=0, block_size=block_size, unroll=unroll
+            dataset, x_c, axis=0, block_size=block_size, unroll=unroll
         )
         kernel_cc = kernel.compute(x_c, x_c) + epsilon * jnp.eye(len(coreset))
     else:
-- 
2.43.0


From 234609725b9f77285d3de9ed7f08522816ac049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:56 +0000
Subject: [PATCH 22/25] fix: randomised solver must not drop negative
 eigenvalues

---
 coreax/least_squares.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coreax/least_squares.py b/coreax/least_squares.py
index 6d90dcc..5a71096 100644
--- a/coreax/least_squares.py
+++ b/coreax/least_squares.py
@@ -222,7 +222,8 @@ def _eigendecomposition_invert(
     """
     # Mask the eigenvalues that are zero or almost zero according to value of rcond
     # for safe inversion.
-    mask = eigenvalues >= jnp.array(rcond) * jnp.max(eigenvalues)
+    magnitudes = jnp.abs(eigenvalues)
+    mask = magnitudes >= jnp.array(rcond) * jnp.max(magnitudes)
     safe_eigenvalues = jnp.where(mask, eigenvalues, 1)
 
     # Invert the eigenvalues safely and extend array for broadcasting
-- 
2.43.0


From 8b1721e7b486bdf4d9a4e5f4822b8ac02ca84b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:53 +0000
Subject: [PATCH 23/25] fix: NystromApproximateKernel must project the mean of
 the whole dataset

---
 coreax/approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/approximation.py b/coreax/approximation.py
index dd78e7d..9ce32b1 100644
--- a/coreax/approximation.py
+++ b/coreax/approximation.py
@@ -336,5 +336,5 @@ class NystromApproximateKernel(RandomRegressionKernel):
             x,
             features,
             self.num_train_points,
-            self.base_kernel.gramian_row_mean,
+            partial(self.base_kernel.compute_mean, x, axis=0),
         )
-- 
2.43.0


From c143d99156cbdad14d11021432705f43cf3aab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:58 +0000
Subject: [PATCH 24/25] fix: MonteCarloApproximateKernel must use
 num_kernel_points points

---
 coreax/approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/approximation.py b/coreax/approximation.py
index 9ce32b1..27ea718 100644
--- a/coreax/approximation.py
+++ b/coreax/approximation.py
@@ -202,7 +202,7 @@ class MonteCarloApproximateKernel(RandomRegressionKernel):
 
         num_data_points = len(x)
         key = self.random_key
-        features_idx = _random_indices(key, num_data_points, self.num_kernel_points - 1)
+        features_idx = _random_indices(key, num_data_points, self.num_kernel_points)
         features = self.base_kernel.compute(x, x[features_idx])
         return _random_least_squares(
             key,
-- 
2.43.0


From 36ba16223f68f1ad465c7e6f8d82fd5a998f7493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:02 +0000
Subject: [PATCH 25/25] fix: reject an empty dataset in compute_mean with the
 intended ValueError

The guard was unreachable: the padding computation divided by the zero
block size first and raised ZeroDivisionError.
---
 coreax/kernels/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coreax/kernels/util.py b/coreax/kernels/util.py
index 33725fb..61f7aed 100644
--- a/coreax/kernels/util.py
+++ b/coreax/kernels/util.py
@@ -31,6 +31,8 @@ def _block_data_convert(
 ) -> tuple[Data, int]:
     """Convert 'x' into padded and weight normalized blocks of size 'block_size'."""
     x = as_data(x).normalize(preserve_zeros=True)
+    if len(x) == 0:
+        raise ValueError("'x' must not be empty")
     block_size = len(x) if block_size is None else min(max(int(block_size), 1), len(x))
     padding = ceil(len(x) / block_size) * block_size - len(x)
     padded_x = tree_zero_pad_leading_axis(x, padding)
-- 
2.43.0

