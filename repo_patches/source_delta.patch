From 1716933be3ccef06f3296509b187a6b725a046a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 01/72] fix: validate products over a Split against the feature
 axis

check_shapes passed the already divided feature count and let the split
divide the channel axis, so valid splits (e.g. 3 channels split in two
feature blocks) were rejected with a ShapeError.
---
 .../modules/products/elementwise_product.py   |  7 ++-----
 spflow/modules/products/outer_product.py      | 19 +++----------------
 2 files changed, 5 insertions(+), 21 deletions(-)

diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index ee2d008..5371224 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -102,11 +102,8 @@ class ElementwiseProduct(BaseProduct):
                 raise ValueError("num_splits must be the same for all inputs")
             out_f = self.inputs[0].out_shape.features
             out_c = self.inputs[0].out_shape.channels
-            if out_f == 1:
-                out_f_computed = 1
-            else:
-                out_f_computed = int(out_f // self.num_splits)
-            shapes = inputs[0].get_out_shapes((out_f_computed, out_c))
+            # The split divides the feature axis; channels are left untouched.
+            shapes = inputs[0].get_out_shapes((out_c, out_f))
         else:
             shapes = [(inp.out_shape.features, inp.out_shape.channels) for inp in inputs]
 
diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index 9544c37..6c1c496 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -96,25 +96,12 @@ class OuterProduct(BaseProduct):
         Raises:
             ValueError: If input shapes are not broadcastable.
         """
-        # Compute out_features locally
-        input_features = self.inputs[0].out_shape.features
-        if self.input_is_split:
-            out_features = int(input_features // self.num_splits)
-        else:
-            out_features = input_features
-
-        # Compute out_channels as product of input channels
-        ocs = 1
-        for inp in self.inputs:
-            ocs *= inp.out_shape.channels
-        if len(self.inputs) == 1:
-            ocs = ocs**self.num_splits
-        out_channels = ocs
-
         if self.input_is_split:
             if self.num_splits != self.inputs[0].num_splits:
                 raise ValueError("num_splits must be the same for all inputs")
-            shapes = self.inputs[0].get_out_shapes((out_features, out_channels))
+            # The split divides the feature axis; channels are left untouched.
+            in_shape = self.inputs[0].out_shape
+            shapes = self.inputs[0].get_out_shapes((in_shape.channels, in_shape.features))
         else:
             shapes = [(inp.out_shape.features, inp.out_shape.channels) for inp in self.inputs]
 
-- 
2.43.0


From 21cea9faaa909ad2d18447124931ff6da827a198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 02/72] fix: hash of Scope must not depend on the order of its
 variables

Scope equality compares queries and evidence as sets, but the generated
dataclass hash used the ordered tuples, so equal scopes could be distinct
dict keys / set members.
---
 spflow/meta/data/scope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/meta/data/scope.py b/spflow/meta/data/scope.py
index 71cfe0e..6a3fb54 100644
--- a/spflow/meta/data/scope.py
+++ b/spflow/meta/data/scope.py
@@ -118,6 +118,10 @@ class Scope:
         """
         return self.equal_query(other) and self.equal_evidence(other)
 
+    def __hash__(self) -> int:
+        """Hash consistent with equality, i.e. independent of the order of the RVs."""
+        return hash((frozenset(self.query), frozenset(self.evidence)))
+
     def __len__(self) -> int:
         """Returns the number of query variables in the scope.
 
-- 
2.43.0


From f663747890ab88610f4cac618d52dbdafb8a55c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 03/72] fix: scopes of products over a Split pair features as
 the split emits them

---
 spflow/modules/ops/split.py                    | 12 ++++++++++++
 spflow/modules/ops/split_by_index.py           |  4 ++++
 spflow/modules/ops/split_consecutive.py        |  5 +++++
 spflow/modules/ops/split_interleaved.py        |  4 ++++
 spflow/modules/products/elementwise_product.py |  5 +----
 spflow/modules/products/outer_product.py       | 11 ++++-------
 6 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/spflow/modules/ops/split.py b/spflow/modules/ops/split.py
index 63fe222..d63b315 100644
--- a/spflow/modules/ops/split.py
+++ b/spflow/modules/ops/split.py
@@ -212,6 +212,18 @@ class Split(Module, ABC):
     def feature_to_scope(self) -> np.ndarray:
         pass
 
+    def split_feature_scopes(self, repetition: int) -> list[np.ndarray]:
+        """Scopes of the features in each split, in the order in which the split emits them.
+
+        Args:
+            repetition: Repetition index.
+
+        Returns:
+            list[np.ndarray]: One array of scopes per split.
+        """
+        scopes = self.feature_to_scope[..., repetition]
+        return [scopes[:, i] for i in range(self.num_splits)]
+
     @abstractmethod
     def merge_split_indices(self, *split_indices: Tensor) -> Tensor:
         """Merge per-split channel indices back to original feature layout.
diff --git a/spflow/modules/ops/split_by_index.py b/spflow/modules/ops/split_by_index.py
index b0cf984..8ea4f4e 100644
--- a/spflow/modules/ops/split_by_index.py
+++ b/spflow/modules/ops/split_by_index.py
@@ -150,6 +150,10 @@ class SplitByIndex(Split):
         out = np.stack(out, axis=2)
         return out
 
+    def split_feature_scopes(self, repetition: int) -> list[np.ndarray]:
+        scopes = self.inputs.feature_to_scope[:, repetition]
+        return [scopes[idx_group] for idx_group in self._indices]
+
     @cached
     def log_likelihood(self, data: Tensor, cache: Cache | None = None) -> list[Tensor]:
         """Compute log likelihoods for each split.
diff --git a/spflow/modules/ops/split_consecutive.py b/spflow/modules/ops/split_consecutive.py
index a80a6fe..fae55fe 100644
--- a/spflow/modules/ops/split_consecutive.py
+++ b/spflow/modules/ops/split_consecutive.py
@@ -62,6 +62,11 @@ class SplitConsecutive(Split):
         out = np.stack(out, axis=2)
         return out
 
+    def split_feature_scopes(self, repetition: int) -> list[np.ndarray]:
+        scopes = self.inputs.feature_to_scope[:, repetition]
+        size = len(scopes) // self.num_splits
+        return [scopes[i * size : (i + 1) * size] for i in range(self.num_splits)]
+
     @cached
     def log_likelihood(
         self,
diff --git a/spflow/modules/ops/split_interleaved.py b/spflow/modules/ops/split_interleaved.py
index f9bdd97..7b22bf1 100644
--- a/spflow/modules/ops/split_interleaved.py
+++ b/spflow/modules/ops/split_interleaved.py
@@ -75,6 +75,10 @@ class SplitInterleaved(Split):
         out = np.stack(out, axis=2)
         return out
 
+    def split_feature_scopes(self, repetition: int) -> list[np.ndarray]:
+        scopes = self.inputs.feature_to_scope[:, repetition]
+        return [scopes[i :: self.num_splits] for i in range(self.num_splits)]
+
     @cached
     def log_likelihood(self, data: Tensor, cache: Cache | None = None) -> list[Tensor]:
         """Compute log likelihoods for each split.
diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index 5371224..928f205 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -141,10 +141,7 @@ class ElementwiseProduct(BaseProduct):
         out = []
         for r in range(self.out_shape.repetitions):
             if self.input_is_split:
-                scope_lists_r = self.inputs[0].feature_to_scope[
-                    ..., r
-                ]  # Shape: (num_features_per_split, num_splits)
-                scope_lists_r = [scope_lists_r[:, i] for i in range(self.num_splits)]
+                scope_lists_r = self.inputs[0].split_feature_scopes(r)
             else:
                 scope_lists_r = [
                     module.feature_to_scope[..., r] for module in self.inputs
diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index 6c1c496..ea58cd5 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -135,17 +135,14 @@ class OuterProduct(BaseProduct):
     def feature_to_scope(self) -> list[Scope]:
         out = []
         for r in range(self.out_shape.repetitions):
-            if isinstance(self.inputs, Split):
-                scope_lists_r = self.inputs.feature_to_scope[
-                    ..., r
-                ]  # Shape: (num_features_per_split, num_splits)
-                scope_lists_r = [scope_lists_r[:, i] for i in range(self.num_splits)]
+            if self.input_is_split:
+                split = self.inputs if isinstance(self.inputs, Split) else self.inputs[0]
+                outer_product_r = list(zip(*split.split_feature_scopes(r)))
             else:
                 scope_lists_r = [
                     module.feature_to_scope[..., r] for module in self.inputs
                 ]  # Shape: (num_features_per_split, num_splits)
-
-            outer_product_r = list(product(*scope_lists_r))
+                outer_product_r = list(product(*scope_lists_r))
 
             feature_to_scope_r = []
             for scopes_r in outer_product_r:
-- 
2.43.0


From 3d4fb2eb870e58f325501947c50e0b3b92965060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 04/72] fix: products over inputs with non-contiguous
 log-likelihoods

---
 spflow/modules/products/elementwise_product.py | 2 +-
 spflow/modules/products/outer_product.py       | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index 928f205..ac0a297 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -260,7 +260,7 @@ class ElementwiseProduct(BaseProduct):
         # Compute the elementwise sum of left and right split
         output = torch.sum(torch.stack(lls, dim=-1), dim=-1)
 
-        output = output.view(
+        output = output.reshape(
             output.size(0), self.out_shape.features, self.out_shape.channels, self.out_shape.repetitions
         )
 
diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index ea58cd5..b2f2e9c 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -247,17 +247,17 @@ class OuterProduct(BaseProduct):
         for i in range(1, len(lls)):
             output = output.unsqueeze(3) + lls[i].unsqueeze(2)
             if output.ndim == 4:
-                output = output.view(output.size(0), self.out_shape.features, -1)
+                output = output.reshape(output.size(0), self.out_shape.features, -1)
             elif output.ndim == 5:
-                output = output.view(output.size(0), self.out_shape.features, -1, self.out_shape.repetitions)
+                output = output.reshape(output.size(0), self.out_shape.features, -1, self.out_shape.repetitions)
             else:
                 raise ValueError("Invalid number of dimensions")
 
         # View as [b, n, m1 * m2, r]
         if self.out_shape.repetitions is None:
-            output = output.view(output.size(0), self.out_shape.features, self.out_shape.channels)
+            output = output.reshape(output.size(0), self.out_shape.features, self.out_shape.channels)
         else:
-            output = output.view(
+            output = output.reshape(
                 output.size(0), self.out_shape.features, self.out_shape.channels, self.out_shape.repetitions
             )
         return output
-- 
2.43.0


From 2fab6383265594138fb17f7c230c1130613259c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 05/72] fix: einsum weight cache returned stale weights after
 copying the layer

---
 spflow/modules/einsum/einsum_layer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index f348048..db16992 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -201,7 +201,7 @@ class EinsumLayer(Module):
 
         # Register logits parameter
         self.logits = nn.Parameter(torch.zeros(self.weights_shape))
-        self._eval_weight_cache: tuple[int, Tensor] | None = None
+        self._eval_weight_cache: tuple[tuple[int, int], Tensor] | None = None
 
         # Set weights via property (converts to logits)
         self.weights = weights
@@ -312,7 +312,9 @@ class EinsumLayer(Module):
             return weights.unflatten(-1, (self._left_channels, self._right_channels))
 
         cache_entry = self._eval_weight_cache
-        current_version = self.logits._version
+        # The version counter alone does not identify the values: it restarts when the
+        # parameter is copied or replaced, so the storage is part of the key.
+        current_version = (self.logits.data_ptr(), self.logits._version)
         if cache_entry is not None:
             cached_version, cached_weights = cache_entry
             if (
-- 
2.43.0


From a10a14c4f519684a2033297c9322ddc5c4527607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 06/72] fix: einsum and linsum sampling routes the mask through
 the split it uses

---
 spflow/modules/einsum/einsum_layer.py | 2 +-
 spflow/modules/einsum/linsum_layer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index db16992..854277f 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -568,7 +568,7 @@ class EinsumLayer(Module):
         else:
             # Single input with Split module - use generic merge_split_indices
             full_indices = self.inputs.merge_split_tensors(left_indices, right_indices)
-            full_mask = repeat(sampling_ctx.mask, "b f -> b (f two)", two=2)
+            full_mask = self.inputs.merge_split_tensors(sampling_ctx.mask, sampling_ctx.mask)
 
             child_ctx = sampling_ctx.with_routing(channel_index=full_indices, mask=full_mask)
             self.inputs._sample(data=data, cache=cache, sampling_ctx=child_ctx)
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 01b925a..69bd9a7 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -434,7 +434,7 @@ class LinsumLayer(Module):
             # Single input with Split module - use generic merge_split_indices
             # For LinsumLayer, both left and right use the same indices (linear combination)
             full_indices = self.inputs.merge_split_tensors(indices, indices)
-            full_mask = repeat(sampling_ctx.mask, "b f -> b (f two)", two=2)
+            full_mask = self.inputs.merge_split_tensors(sampling_ctx.mask, sampling_ctx.mask)
 
             child_ctx = sampling_ctx.with_routing(channel_index=full_indices, mask=full_mask)
             self.inputs._sample(data=data, cache=cache, sampling_ctx=child_ctx)
-- 
2.43.0


From 2c599807a8b7feceb94408aae4d083de76a4b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 07/72] fix: einsum log-likelihood of impossible evidence is
 -inf, not NaN

---
 spflow/modules/einsum/einsum_layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 854277f..d36eb95 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -372,9 +372,12 @@ class EinsumLayer(Module):
         above, and the removed maxima are added back after ``log``.
         """
         left_max = left_ll.amax(dim=2, keepdim=True)
+        # An input that is impossible in every channel has no finite maximum to remove.
+        left_max = torch.where(torch.isfinite(left_max), left_max, torch.zeros_like(left_max))
         left_prob = torch.exp(left_ll - left_max)
 
         right_max = right_ll.amax(dim=2, keepdim=True)
+        right_max = torch.where(torch.isfinite(right_max), right_max, torch.zeros_like(right_max))
         right_prob = torch.exp(right_ll - right_max)
 
         weights = self._normalized_weights()
-- 
2.43.0


From 52b81b6178a817549ea5ae9688e21a16db928e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 08/72] fix: ElementwiseSum.marginalize keeps weights per
 feature, not per scope position

---
 spflow/modules/sums/elementwise_sum.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 6b587dd..83ea8b0 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -269,9 +269,12 @@ class ElementwiseSum(Module):
 
             # if marginalized input is not None
             if marg_input:
-                indices = [self.scope.query.index(el) for el in list(mutual_rvs)]
-                mask = torch.ones(len(module_scope.query), device=module_weights.device, dtype=torch.bool)
-                mask[indices] = False
+                # Keep the weights of those features whose scope is not fully marginalized
+                mask = torch.tensor(
+                    [not mutual_rvs.issuperset(scope.query) for scope in self.feature_to_scope[:, 0]],
+                    device=module_weights.device,
+                    dtype=torch.bool,
+                )
                 module_weights = module_weights[mask]
 
         else:
-- 
2.43.0


From 6bf5741f1d93c7b34b05a02a743aec815a9580c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 09/72] fix: RepetitionMixingLayer.marginalize keeps mixing
 repetitions

---
 .../modules/sums/repetition_mixing_layer.py   | 42 +++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 2a58ee3..dcd3b70 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -243,3 +243,45 @@ class RepetitionMixingLayer(Sum):
 
         # Recursively call EM on inputs
         self.inputs._expectation_maximization_step(data, bias_correction=bias_correction, cache=cache)
+
+    def marginalize(
+        self,
+        marg_rvs: list[int],
+        prune: bool = True,
+        cache: Cache | None = None,
+    ) -> RepetitionMixingLayer | None:
+        """Marginalize out specified random variables.
+
+        Args:
+            marg_rvs: List of random variables to marginalize.
+            prune: Whether to prune the module.
+            cache: Optional cache dictionary.
+
+        Returns:
+            Marginalized RepetitionMixingLayer or None if fully marginalized.
+        """
+        mutual_rvs = set(self.scope.query).intersection(set(marg_rvs))
+        if len(mutual_rvs) == len(self.scope.query):
+            return None
+
+        marg_input = self.inputs
+        log_weights = self.log_weights.detach()
+        if mutual_rvs:
+            marg_input = self.inputs.marginalize(marg_rvs, prune=prune, cache=cache)
+            if marg_input is None:
+                return None
+            # Keep the weights of those features whose scope is not fully marginalized
+            mask = torch.tensor(
+                [not mutual_rvs.issuperset(scope.query) for scope in self.feature_to_scope[:, 0]],
+                device=log_weights.device,
+                dtype=torch.bool,
+            )
+            log_weights = log_weights[mask]
+
+        marg_module = RepetitionMixingLayer(
+            inputs=marg_input,
+            out_channels=self.out_shape.channels,
+            num_repetitions=self.out_shape.repetitions,
+        )
+        marg_module.log_weights = log_weights
+        return marg_module
-- 
2.43.0


From bcadad010343ab8ee4c282b2cfab4c6757c158f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 10/72] fix: marginalized leaves keep their validate_args
 setting

---
 spflow/modules/leaves/leaf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 185229b..50d6cdc 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -1115,5 +1115,6 @@ class LeafModule(Module, ABC):
         # Construct new object of the same class as the leaves
         return self.__class__(
             scope=scope_marg,
+            validate_args=self._validate_args,
             **marg_params_dict,
         )
-- 
2.43.0


From ebf299e957095d741b0a5a2e75fe04348b9a48a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 11/72] fix: RepetitionMixingLayer samples the repetition of
 the routed channel

---
 spflow/modules/sums/repetition_mixing_layer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index dcd3b70..44068dd 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -9,7 +9,12 @@ from spflow.exceptions import InvalidParameterCombinationError, MissingCacheErro
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
-from spflow.utils.sampling_context import SamplingContext, sample_from_logits
+from spflow.utils.sampling_context import (
+    SamplingContext,
+    index_tensor,
+    repeat_channel_index,
+    sample_from_logits,
+)
 
 
 class RepetitionMixingLayer(Sum):
@@ -136,7 +141,13 @@ class RepetitionMixingLayer(Sum):
             log_posterior = log_posterior.log_softmax(dim=3)
             logits = log_posterior
 
-        rep_logits = logits.sum(-2)
+        # Select the repetition logits of the routed channel
+        channel_idx = repeat_channel_index(
+            sampling_ctx.channel_index, "b f co -> b f co r", r=int(logits.shape[-1])
+        )
+        rep_logits = index_tensor(
+            logits, index=channel_idx, dim=2, is_differentiable=sampling_ctx.is_differentiable
+        )
         rep_samples = sample_from_logits(
             logits=rep_logits,
             dim=-1,
-- 
2.43.0


From bf60f3990af91c0642df368f98f6cceacbfac61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 12/72] fix: elementwise product routes each input its own
 channel index

---
 spflow/modules/products/elementwise_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index ac0a297..71c4c04 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -188,7 +188,7 @@ class ElementwiseProduct(BaseProduct):
 
         num_inputs = len(self.inputs)
         if not output_ids.is_floating_point():
-            mapped = repeat(output_ids, "b f -> b f i", i=num_inputs)
+            mapped = repeat(output_ids, "b f -> b f i", i=num_inputs).clone()
             for i, inp in enumerate(self.inputs):
                 if int(inp.out_shape.channels) == 1:
                     mapped[..., i] = 0
-- 
2.43.0


From 272b27164a9ef259027b2d08c8f6c5a00139d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 13/72] fix: elementwise sum routes broadcast inputs to their
 only channel

---
 spflow/modules/sums/elementwise_sum.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 83ea8b0..54e3295 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -445,8 +445,15 @@ class ElementwiseSum(Module):
 
         for i, inp in enumerate(self.inputs):
             child_mask = sampling_ctx.mask & (selected_input == i)
+            child_channel_index = cids_in_channels_per_input
+            if inp.out_shape.channels == 1 and self.in_shape.channels > 1:
+                # The single channel of a broadcast input serves every input channel.
+                if sampling_ctx.is_differentiable:
+                    child_channel_index = torch.ones_like(child_channel_index[..., :1])
+                else:
+                    child_channel_index = torch.zeros_like(child_channel_index)
             sampling_ctx_cpy = sampling_ctx.with_routing(
-                channel_index=cids_in_channels_per_input,
+                channel_index=child_channel_index,
                 mask=child_mask,
             )
 
-- 
2.43.0


From f6622659f1221a1ef78ae963019a9884d3351b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 14/72] fix: ProdConv sampling with padding routes the patch of
 each pixel

---
 spflow/modules/conv/prod_conv.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/spflow/modules/conv/prod_conv.py b/spflow/modules/conv/prod_conv.py
index 6c4e282..9ce998c 100644
--- a/spflow/modules/conv/prod_conv.py
+++ b/spflow/modules/conv/prod_conv.py
@@ -252,7 +252,7 @@ class ProdConv(Module):
             sampling_ctx.broadcast_feature_width(target_features=out_features, allow_from_one=True)
             current_features = out_features
 
-        if current_features == in_features:
+        if current_features == in_features and in_features != out_features:
             pass
         elif current_features == out_features:
             # Deterministic spatial upsampling from ProdConv output grid to input grid.
@@ -289,11 +289,14 @@ class ProdConv(Module):
                         f"Got upsampled width {upsampled_features}, expected padded width "
                         f"{expected_padded_features}, input width {in_features}."
                     )
-                channel_idx = sampling_ctx.channel_index[:, :in_features].contiguous()
-                mask = sampling_ctx.mask[:, :in_features].contiguous()
+                # Keep the pixels of the unpadded input, which lie in the interior of the padded grid.
+                padded_w = self._input_w + 2 * self.padding_w
+                rows = torch.arange(self._input_h, device=sampling_ctx.mask.device) + self.padding_h
+                cols = torch.arange(self._input_w, device=sampling_ctx.mask.device) + self.padding_w
+                interior = (rows.unsqueeze(1) * padded_w + cols.unsqueeze(0)).reshape(-1)
                 sampling_ctx.update(
-                    channel_index=channel_idx,
-                    mask=mask,
+                    channel_index=sampling_ctx.channel_index[:, interior],
+                    mask=sampling_ctx.mask[:, interior],
                 )
             elif upsampled_features < in_features:
                 raise ShapeError(
-- 
2.43.0


From 72a4d4d5bda58f398120ee2fc634a114b5ed3137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 15/72] fix: keep EM weight updates finite for sum nodes no
 sample reaches

---
 spflow/modules/sums/elementwise_sum.py        |  7 ++++---
 .../modules/sums/repetition_mixing_layer.py   |  7 ++++---
 spflow/modules/sums/sum.py                    |  7 ++++---
 spflow/utils/projections.py                   | 21 +++++++++++++++++++
 4 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 54e3295..382157d 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -19,6 +19,7 @@ from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.utils.cache import Cache, cached
 from spflow.utils.projections import (
+    normalize_log_expectations,
     proj_convex_to_real,
 )
 from spflow.utils.sampling_context import (
@@ -562,11 +563,11 @@ class ElementwiseSum(Module):
             )
 
             log_expectations = log_weights + log_grads + input_lls - module_lls
-            log_expectations = log_expectations.logsumexp(0)  # Sum over batch dimension
-            log_expectations = log_expectations.log_softmax(self.sum_dim)  # Normalize
 
             # ----- maximization step -----
-            self.log_weights = log_expectations
+            self.log_weights = normalize_log_expectations(
+                log_expectations, log_grads, self.log_weights, self.sum_dim
+            )
 
         for inp in self.inputs:
             inp._expectation_maximization_step(data, bias_correction=bias_correction, cache=cache)
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 44068dd..09ceb3f 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -9,6 +9,7 @@ from spflow.exceptions import InvalidParameterCombinationError, MissingCacheErro
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
+from spflow.utils.projections import normalize_log_expectations
 from spflow.utils.sampling_context import (
     SamplingContext,
     index_tensor,
@@ -246,11 +247,11 @@ class RepetitionMixingLayer(Sum):
             log_grads = torch.log(module_lls.grad)
 
             log_expectations = log_weights + log_grads + input_lls - module_lls
-            log_expectations = log_expectations.logsumexp(0)  # Sum over batch dimension
-            log_expectations = log_expectations.log_softmax(self.sum_dim)  # Normalize
 
             # ----- maximization step -----
-            self.log_weights = log_expectations
+            self.log_weights = normalize_log_expectations(
+                log_expectations, log_grads, self.log_weights, self.sum_dim
+            )
 
         # Recursively call EM on inputs
         self.inputs._expectation_maximization_step(data, bias_correction=bias_correction, cache=cache)
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index b8934b2..863aa43 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -16,6 +16,7 @@ from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.cat import Cat
 from spflow.utils.cache import Cache, cached
 from spflow.utils.projections import (
+    normalize_log_expectations,
     proj_convex_to_real,
 )
 from spflow.utils.sampling_context import (
@@ -424,11 +425,11 @@ class Sum(Module):
             module_lls = rearrange(module_lls, "b f co r -> b f 1 co r")
 
             log_expectations = log_weights + log_grads + input_lls - module_lls
-            log_expectations = log_expectations.logsumexp(0)  # Sum over batch dimension
-            log_expectations = log_expectations.log_softmax(self.sum_dim)  # Normalize
 
             # ----- maximization step -----
-            self.log_weights = log_expectations
+            self.log_weights = normalize_log_expectations(
+                log_expectations, log_grads, self.log_weights, self.sum_dim
+            )
 
         # Recursively call EM on inputs
         self.inputs._expectation_maximization_step(data, cache=cache, bias_correction=bias_correction)
diff --git a/spflow/utils/projections.py b/spflow/utils/projections.py
index 27c3475..08148f4 100644
--- a/spflow/utils/projections.py
+++ b/spflow/utils/projections.py
@@ -140,3 +140,24 @@ def proj_bounded_to_real(
     else:
         # project from right-bounded interval
         return torch.log(ub - x)
+
+
+def normalize_log_expectations(
+    log_expectations: Tensor, log_grads: Tensor, log_weights: Tensor, sum_dim: int
+) -> Tensor:
+    """Normalize the expected (log) counts of a sum node's branches.
+
+    Args:
+        log_expectations: Log responsibilities with a leading batch dimension.
+        log_grads: Log gradients of the node, broadcastable to ``log_expectations``. Samples with a zero
+            gradient never reach the node and contribute nothing.
+        log_weights: Current log weights, kept for nodes which are not reached by any sample.
+        sum_dim: Dimension (after removing the batch dimension) over which the weights sum to one.
+
+    Returns:
+        New log weights.
+    """
+    unreached = torch.isneginf(log_grads)
+    log_expectations = log_expectations.masked_fill(unreached, -torch.inf).logsumexp(0)  # Sum over batch
+    total = log_expectations.logsumexp(sum_dim, keepdim=True)
+    return torch.where(torch.isneginf(total), log_weights, log_expectations - total)
-- 
2.43.0


From c1668421ce3cb54d9b3742d6d00cb5e3db2474f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 16/72] fix: keep EM updates of einsum and linsum layers exact
 and finite

---
 spflow/modules/einsum/einsum_layer.py | 13 ++++++++-----
 spflow/modules/einsum/linsum_layer.py |  7 +++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index d36eb95..e9124f4 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -37,7 +37,7 @@ from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
 from spflow.utils.cache import Cache, cached
-from spflow.utils.projections import proj_convex_to_real
+from spflow.utils.projections import normalize_log_expectations, proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
     index_tensor,
@@ -607,7 +607,7 @@ class EinsumLayer(Module):
             right_ll = rearrange(right_ll, "b f j r -> b f 1 r 1 j")
 
             # Get gradients (how much each output contributed)
-            log_grads = torch.log(module_lls.grad + 1e-10)
+            log_grads = torch.log(module_lls.grad)
 
             log_grads = rearrange(log_grads, "b f co r -> b f co r 1 1")
             module_lls = rearrange(module_lls, "b f co r -> b f co r 1 1")
@@ -617,11 +617,14 @@ class EinsumLayer(Module):
 
             # Compute log expectations
             log_expectations = log_weights + log_grads + joint_input_ll - module_lls
-            log_expectations = log_expectations.logsumexp(0)  # Sum over batch
 
             # Normalize to get new log weights
-            flat_expectations = rearrange(log_expectations, "f co r i j -> f co r (i j)")
-            flat_log_weights = torch.nn.functional.log_softmax(flat_expectations, dim=-1)
+            flat_log_weights = normalize_log_expectations(
+                rearrange(log_expectations, "b f co r i j -> b f co r (i j)"),
+                rearrange(log_grads, "b f co r 1 1 -> b f co r 1"),
+                rearrange(self.log_weights, "f co r i j -> f co r (i j)"),
+                -1,
+            )
             new_log_weights = rearrange(
                 flat_log_weights,
                 "f co r (i j) -> f co r i j",
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 69bd9a7..ca1997c 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -26,7 +26,7 @@ from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
 from spflow.utils.cache import Cache, cached
-from spflow.utils.projections import proj_convex_to_real
+from spflow.utils.projections import normalize_log_expectations, proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
     index_tensor,
@@ -472,17 +472,16 @@ class LinsumLayer(Module):
             prod_ll = rearrange(prod_ll, "b f ci r -> b f 1 r ci")
 
             # Get gradients
-            log_grads = torch.log(module_lls.grad + 1e-10)
+            log_grads = torch.log(module_lls.grad)
 
             log_grads = rearrange(log_grads, "b f co r -> b f co r 1")
             module_lls = rearrange(module_lls, "b f co r -> b f co r 1")
 
             # Compute log expectations
             log_expectations = log_weights + log_grads + prod_ll - module_lls
-            log_expectations = log_expectations.logsumexp(0)  # Sum over batch
 
             # Normalize to get new log weights
-            new_log_weights = torch.nn.functional.log_softmax(log_expectations, dim=-1)
+            new_log_weights = normalize_log_expectations(log_expectations, log_grads, self.log_weights, -1)
 
             # M-step: update weights
             self.log_weights = new_log_weights
-- 
2.43.0


From 04e997883463cdedadca32a3e6bce40adf2e8b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 17/72] fix: apply each EM update once when a module has
 several parents

---
 spflow/modules/conv/sum_conv.py                |  3 ++-
 spflow/modules/einsum/einsum_layer.py          |  3 ++-
 spflow/modules/einsum/linsum_layer.py          |  3 ++-
 spflow/modules/leaves/leaf.py                  |  3 ++-
 spflow/modules/sums/elementwise_sum.py         |  3 ++-
 spflow/modules/sums/repetition_mixing_layer.py |  3 ++-
 spflow/modules/sums/sum.py                     |  3 ++-
 spflow/utils/cache.py                          | 18 ++++++++++++++++++
 8 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index 46018a7..ebc7ed9 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -15,7 +15,7 @@ from torch.nn import functional as F
 from spflow.exceptions import InvalidWeightsError, MissingCacheError, ShapeError
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -424,6 +424,7 @@ class SumConv(Module):
 
         return data
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index e9124f4..8ce5b0c 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -36,7 +36,7 @@ from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import normalize_log_expectations, proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -578,6 +578,7 @@ class EinsumLayer(Module):
 
         return data
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index ca1997c..dad5db4 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -25,7 +25,7 @@ from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import normalize_log_expectations, proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -441,6 +441,7 @@ class LinsumLayer(Module):
 
         return data
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 50d6cdc..1ebbd52 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -13,7 +13,7 @@ from spflow.meta.data.interval_evidence import IntervalEvidence
 from spflow.meta.data.scope import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.leaves import apply_nan_strategy, parse_leaf_args
 from spflow.utils.sampling_context import LeafParamRecord, SamplingContext
 from spflow.utils.sampling_context import index_one_hot, index_tensor, repeat_repetition_index
@@ -360,6 +360,7 @@ class LeafModule(Module, ABC):
 
         return param_est
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: torch.Tensor,
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 382157d..b6e847a 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -17,7 +17,7 @@ from spflow.exceptions import (
 from spflow.meta.data import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import (
     normalize_log_expectations,
     proj_convex_to_real,
@@ -517,6 +517,7 @@ class ElementwiseSum(Module):
 
         return output
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 09ceb3f..98741a0 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -8,7 +8,7 @@ from torch import Tensor
 from spflow.exceptions import InvalidParameterCombinationError, MissingCacheError, ShapeError
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import normalize_log_expectations
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -209,6 +209,7 @@ class RepetitionMixingLayer(Sum):
         # Repetition axis is mixed out, so re-introduce singleton repetition dimension.
         return rearrange(output, "b f co -> b f co 1")
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index 863aa43..3cd49cb 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -14,7 +14,7 @@ from spflow.exceptions import (
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.cat import Cat
-from spflow.utils.cache import Cache, cached
+from spflow.utils.cache import Cache, cached, once_per_cache
 from spflow.utils.projections import (
     normalize_log_expectations,
     proj_convex_to_real,
@@ -385,6 +385,7 @@ class Sum(Module):
 
         return data
 
+    @once_per_cache
     def _expectation_maximization_step(
         self,
         data: Tensor,
diff --git a/spflow/utils/cache.py b/spflow/utils/cache.py
index 2d1f094..1d4f9d5 100644
--- a/spflow/utils/cache.py
+++ b/spflow/utils/cache.py
@@ -133,3 +133,21 @@ def cached(func: Callable[..., T]) -> Callable[..., T]:
         return result
 
     return wrapper
+
+
+def once_per_cache(func: Callable[..., None]) -> Callable[..., None]:
+    """Run a module's update step at most once per cache.
+
+    A module shared by several parents is reached once per parent. Its update uses the log-likelihoods
+    and gradients of one forward pass, and must not be applied again to the updated parameters.
+    """
+    key = f"{func.__module__}.{func.__qualname__}"
+
+    @functools.wraps(func)
+    def wrapper(self, *args, cache: Cache, **kwargs) -> None:
+        if cache.get(key, self):
+            return
+        func(self, *args, cache=cache, **kwargs)
+        cache.set(key, self, True)
+
+    return wrapper
-- 
2.43.0


From 14fa66592732429d1824f2558fe5f0c1c4aead08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 18/72] fix: SumConv EM estimates the weights of every kernel
 position

---
 spflow/modules/conv/sum_conv.py | 56 +++++++++++++--------------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index ebc7ed9..301ff95 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -16,7 +16,7 @@ from spflow.exceptions import InvalidWeightsError, MissingCacheError, ShapeError
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.utils.cache import Cache, cached, once_per_cache
-from spflow.utils.projections import proj_convex_to_real
+from spflow.utils.projections import normalize_log_expectations, proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
     index_tensor,
@@ -481,45 +481,33 @@ class SumConv(Module):
                 # If no gradient, use uniform (this happens at the root)
                 log_grads = torch.zeros_like(module_lls)
             else:
-                log_grads = torch.log(module_lls_grad + 1e-10)
+                log_grads = torch.log(module_lls_grad)
 
-            # Current log weights: (out_c, in_c, k, k, reps)
-            # Average over kernel spatial dims for simplicity
-            log_weights = self.log_weights.mean(dim=(2, 3))  # (out_c, in_c, reps)
+            # Patch the grid as in log_likelihood: pixels at the same position of a patch share their weights
+            # (spatial dims smaller than the kernel only use position (0, 0)).
+            size = int(input_lls.shape[1] ** 0.5)
+            k = self.kernel_size if size >= self.kernel_size else 1
 
-            # Reshape for broadcasting:
-            # log_weights: (1, 1, out_c, in_c, reps)
-            # log_grads: (batch, features, out_c, 1, reps)
-            # input_lls: (batch, features, 1, in_c, reps)
-            # module_lls: (batch, features, out_c, 1, reps)
+            def to_patches(x: Tensor) -> Tensor:
+                return rearrange(
+                    x, "b (oh kh ow kw) c r -> (b oh ow) c kh kw r", oh=size // k, ow=size // k, kh=k, kw=k
+                )
 
-            log_weights = rearrange(log_weights, "co ci r -> 1 1 co ci r")
-            log_grads = rearrange(log_grads, "b f co r -> b f co 1 r")
-            input_lls = rearrange(input_lls, "b f ci r -> b f 1 ci r")
-            module_lls = rearrange(module_lls, "b f co r -> b f co 1 r")
+            old_log_weights = self.log_weights[:, :, :k, :k]  # (out_c, in_c, k, k, reps)
+            log_grads = rearrange(to_patches(log_grads), "n co kh kw r -> n co 1 kh kw r")
+            input_lls = rearrange(to_patches(input_lls), "n ci kh kw r -> n 1 ci kh kw r")
+            module_lls = rearrange(to_patches(module_lls), "n co kh kw r -> n co 1 kh kw r")
 
             # Compute log expectations
             # This follows the standard EM derivation for mixture models
-            log_expectations = log_weights + log_grads + input_lls - module_lls
-            # Shape: (batch, features, out_c, in_c, reps)
-
-            # Sum over batch and features dimensions
-            log_expectations = torch.logsumexp(log_expectations, dim=0)  # (features, out_c, in_c, reps)
-            log_expectations = torch.logsumexp(log_expectations, dim=0)  # (out_c, in_c, reps)
-
-            # Normalize over in_channels (sum dimension for this module)
-            # The sum_dim for SumConv is dimension 1 (in_channels)
-            log_expectations = torch.log_softmax(log_expectations, dim=1)
-
-            # Update log_weights: need to expand to full kernel shape
-            # Current shape: (out_c, in_c, reps)
-            # Target shape: (out_c, in_c, k, k, reps)
-            k = self.kernel_size
-            new_log_weights = rearrange(log_expectations, "co ci r -> co ci 1 1 r")
-            new_log_weights = repeat(new_log_weights, "co ci 1 1 r -> co ci kh kw r", kh=k, kw=k)
-
-            # Set new weights
-            self.logits.data = new_log_weights.contiguous()
+            log_expectations = old_log_weights + log_grads + input_lls - module_lls
+
+            # Set new weights (normalized over in_channels)
+            new_log_weights = self.log_weights.clone()
+            new_log_weights[:, :, :k, :k] = normalize_log_expectations(
+                log_expectations, log_grads, old_log_weights, 1
+            )
+            self.logits.data = new_log_weights
 
         # Recursively call EM on inputs
         self.inputs._expectation_maximization_step(data, cache=cache, bias_correction=bias_correction)
-- 
2.43.0


From 7c0d60a8e2e46f42e72b827cd2f41ecdc2d45462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:48 +0000
Subject: [PATCH 19/72] fix: ElementwiseSum EM with single-channel inputs

---
 spflow/modules/sums/elementwise_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index b6e847a..84a4a92 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -540,7 +540,7 @@ class ElementwiseSum(Module):
                 inp_ll = cache.get("log_likelihood", inp)
                 if inp_ll is None:
                     raise MissingCacheError("Input log-likelihoods not found in cache.")
-                input_lls.append(inp_ll)
+                input_lls.append(inp_ll.expand(-1, -1, self.in_shape.channels, -1))
             input_lls = torch.stack(input_lls, dim=3)
 
             # Get module lls
-- 
2.43.0


From eec3dac4d737e3583cbfbc5d685ab1ca8f58d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 20/72] fix: ElementwiseSum sampling with a cache that lacks
 its inputs

---
 spflow/modules/sums/elementwise_sum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 84a4a92..503f2a5 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -383,7 +383,9 @@ class ElementwiseSum(Module):
             is_differentiable=sampling_ctx.is_differentiable,
         )
 
-        if "log_likelihood" in cache and all(cache["log_likelihood"][inp] is not None for inp in self.inputs):
+        if "log_likelihood" in cache and all(
+            cache["log_likelihood"].get(inp) is not None for inp in self.inputs
+        ):
             input_lls = []
             for inp in self.inputs:
                 inp_ll = cache["log_likelihood"][inp]
-- 
2.43.0


From 531312f47fd43c5a5f37526f19f1eee3baf14114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 21/72] fix: normalize leaf estimation weights per distribution

---
 spflow/modules/leaves/leaf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 1ebbd52..759ae91 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -576,6 +576,11 @@ class LeafModule(Module, ABC):
         # Step 2: Apply NaN strategy (drop/impute)
         scoped_data, normalized_weights = apply_nan_strategy(nan_strategy, scoped_data, self.device, weights)
 
+        # Step 3: Every distribution of this leaf has its own weights, which sum to the number of samples
+        normalized_weights = normalized_weights * (
+            scoped_data.shape[0] / normalized_weights.sum(dim=0, keepdim=True)
+        )
+
         return scoped_data, normalized_weights
 
     def maximum_likelihood_estimation(
-- 
2.43.0


From 32ccfb29d14e8388cdc27b28e76061856c99d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 22/72] fix: keep leaf estimates finite and inside their domain
 for degenerate data

---
 spflow/modules/leaves/bernoulli.py | 2 +-
 spflow/modules/leaves/gamma.py     | 3 ++-
 spflow/modules/leaves/geometric.py | 2 +-
 spflow/utils/leaves.py             | 5 +++++
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index cd21076..773ec2c 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -122,7 +122,7 @@ class Bernoulli(LeafModule):
         p_est = n_success / n_total
 
         # Handle edge cases (NaN, zero, or near-zero p) before broadcasting
-        p_est = _handle_mle_edge_cases(p_est, lb=0.0)
+        p_est = _handle_mle_edge_cases(p_est, lb=0.0, ub=1.0)
 
         return {"probs": p_est}
 
diff --git a/spflow/modules/leaves/gamma.py b/spflow/modules/leaves/gamma.py
index 908fc48..44850d0 100644
--- a/spflow/modules/leaves/gamma.py
+++ b/spflow/modules/leaves/gamma.py
@@ -140,7 +140,8 @@ class Gamma(LeafModule):
         mean_x = (weights * data).sum(dim=0) / n_total
         mean_ln_x = (weights * data_log).sum(dim=0) / n_total
 
-        theta_est = mean_xlnx - mean_x * mean_ln_x
+        # Zero (up to rounding) for constant data
+        theta_est = _handle_mle_edge_cases(mean_xlnx - mean_x * mean_ln_x, lb=0.0)
         concentration_est = mean_x / theta_est
         rate_est = 1 / theta_est
 
diff --git a/spflow/modules/leaves/geometric.py b/spflow/modules/leaves/geometric.py
index 6160511..7fbf8bb 100644
--- a/spflow/modules/leaves/geometric.py
+++ b/spflow/modules/leaves/geometric.py
@@ -127,7 +127,7 @@ class Geometric(LeafModule):
             p_est = p_est - (p_est * (1 - p_est) / n_total)
 
         # Handle edge cases (NaN, zero, or near-zero p) before broadcasting
-        p_est = _handle_mle_edge_cases(p_est, lb=0.0)
+        p_est = _handle_mle_edge_cases(p_est, lb=0.0, ub=1.0)
 
         return {"probs": p_est}
 
diff --git a/spflow/utils/leaves.py b/spflow/utils/leaves.py
index e07700f..455e86f 100644
--- a/spflow/utils/leaves.py
+++ b/spflow/utils/leaves.py
@@ -230,6 +230,11 @@ def _handle_mle_edge_cases(
         param_est = param_est.clone()
         param_est[nan_mask] = base_eps
 
+    # Divisions by a vanishing statistic (e.g. the rate of all-zero data) give the largest admissible estimate
+    inf_mask = torch.isposinf(param_est)
+    if inf_mask.any():
+        param_est = param_est.masked_fill(inf_mask, 1.0 / base_eps.item())
+
     if lb_tensor is not None:
         below_mask = param_est <= lb_tensor
         if below_mask.any():
-- 
2.43.0


From 2684bf2099dae12ea3f649f8d9d9e8b9f6c592f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 23/72] fix: Laplace location is the weighted median

---
 spflow/modules/leaves/laplace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/laplace.py b/spflow/modules/leaves/laplace.py
index 404340e..8e5f48e 100644
--- a/spflow/modules/leaves/laplace.py
+++ b/spflow/modules/leaves/laplace.py
@@ -97,7 +97,11 @@ class Laplace(LeafModule):
         n_total = weights.sum(dim=0)
 
         # ---- 1. Correct Laplace MLE for loc: weighted median ----
-        loc_est = torch.median(data, dim=0).values
+        values, sample_weights = torch.broadcast_tensors(data, weights)
+        values, order = torch.sort(values, dim=0)
+        cum_weights = torch.gather(sample_weights, 0, order).cumsum(0)
+        median_idx = (cum_weights < 0.5 * cum_weights[-1:]).sum(dim=0, keepdim=True)
+        loc_est = torch.gather(values, 0, median_idx).squeeze(0)
 
         # ---- 2. Correct Laplace MLE for scale ----
         abs_dev = torch.abs(data - loc_est)
-- 
2.43.0


From 6ec80ff114c5d6de40a6e3ec107b59dee4c8e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 24/72] fix: interval bounds outside a leaf's support
 contribute CDF 0 or 1

---
 spflow/modules/leaves/leaf.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 759ae91..025fd73 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -529,10 +529,17 @@ class LeafModule(Module, ABC):
             high_expanded,
         )
 
-        # Compute CDF values
+        # Compute CDF values. Bounds outside the support are not valid CDF arguments: the CDF is 0 below it and 1 above.
+        fill = rearrange(self._supported_value_for_imputation(low_scoped), "b f -> b f 1 1")
+
+        def cdf(bound: Tensor) -> Tensor:
+            inside = getattr(dist, "support", torch.distributions.constraints.real).check(bound)
+            values = dist.cdf(torch.where(inside, bound, fill))
+            return torch.where(inside, values, (bound > fill).to(values.dtype))
+
         try:
-            cdf_high = dist.cdf(high_for_cdf)
-            cdf_low = dist.cdf(low_for_cdf)
+            cdf_high = cdf(high_for_cdf)
+            cdf_low = cdf(low_for_cdf)
         except NotImplementedError:
             raise NotImplementedError(
                 f"{self.__class__.__name__} does not support interval inference. "
-- 
2.43.0


From 0cd31deb7e15bf4e12a63978f69e03a12d5c41ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 25/72] fix: reject interval evidence whose infinite lower
 bound exceeds the upper bound

---
 spflow/meta/data/interval_evidence.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spflow/meta/data/interval_evidence.py b/spflow/meta/data/interval_evidence.py
index a4c7637..cbcf659 100644
--- a/spflow/meta/data/interval_evidence.py
+++ b/spflow/meta/data/interval_evidence.py
@@ -42,9 +42,8 @@ class IntervalEvidence:
         if self.low.dim() != 2:
             raise ValueError(f"Tensors must be 2-dimensional (batch, features), got {self.low.dim()}D")
 
-        # Check low <= high for finite entries
-        finite_mask = torch.isfinite(self.low) & torch.isfinite(self.high)
-        if (self.low[finite_mask] > self.high[finite_mask]).any():
+        # Check low <= high; NaN (no bound) never compares greater
+        if (self.low > self.high).any():
             raise ValueError("Invalid interval: low > high for some entries")
 
     @property
-- 
2.43.0


From 9c0789772107bd7222de252f4e7f8e343717ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 26/72] fix: CLTree weights are normalised per distribution
 before estimation

---
 spflow/modules/leaves/cltree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 6b9245e..21c95d9 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -418,6 +418,8 @@ class CLTree(LeafModule):
         if nan_strategy is None:
             nan_strategy = "ignore"
         scoped, weights = apply_nan_strategy(nan_strategy, scoped, self.device, weights)
+        # Every distribution of this leaf has its own weights, which sum to the number of samples
+        weights = weights * (scoped.shape[0] / weights.sum(dim=0, keepdim=True))
         if scoped.shape[0] < 2:
             raise InvalidParameterError("CLTree requires at least 2 complete samples for MLE.")
 
-- 
2.43.0


From 965465200211ec96f6fd9b98536dd9681eb326f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 27/72] fix: discrete piecewise-linear leaves sample domain
 values instead of their positions

---
 spflow/modules/leaves/piecewise_linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/piecewise_linear.py b/spflow/modules/leaves/piecewise_linear.py
index 0abce99..5c28b58 100644
--- a/spflow/modules/leaves/piecewise_linear.py
+++ b/spflow/modules/leaves/piecewise_linear.py
@@ -329,11 +329,12 @@ class PiecewiseLinearDist:
             i_channel = int(self._flat_channel_indices[flat_idx])
             i_leaf = int(self._flat_leaf_indices[flat_idx])
             i_repetition = int(self._flat_repetition_indices[flat_idx])
+            xs_i = self.xs[i_repetition][i_leaf][i_feature][i_channel]
             ys_i = self.ys[i_repetition][i_leaf][i_feature][i_channel]
             if self.domains[i_feature].data_type != DataType.DISCRETE:
                 raise ValueError(f"Unknown data type: {self.domains[i_feature].data_type}")
             dist = torch.distributions.Categorical(probs=ys_i[1:-1])
-            flat_samples[:, flat_idx] = dist.sample(sample_shape)
+            flat_samples[:, flat_idx] = xs_i[1:-1][dist.sample(sample_shape)]
 
         return self._reshape_flat_with_batch(flat_samples)
 
-- 
2.43.0


From b10a7696745ec1d8fd1a8178f0b671cc05630205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:18 +0000
Subject: [PATCH 28/72] fix: continuous piecewise-linear leaves sample their
 linear density, not a step function

---
 spflow/modules/leaves/piecewise_linear.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/piecewise_linear.py b/spflow/modules/leaves/piecewise_linear.py
index 5c28b58..bf78013 100644
--- a/spflow/modules/leaves/piecewise_linear.py
+++ b/spflow/modules/leaves/piecewise_linear.py
@@ -317,8 +317,13 @@ class PiecewiseLinearDist:
             cdf1 = self._cdf_padded.gather(dim=1, index=indices)
             x0 = xs_cont.gather(dim=1, index=indices - 1)
             x1 = xs_cont.gather(dim=1, index=indices)
-            slope = (x1 - x0) / (cdf1 - cdf0 + 1e-8)
-            cont_samples = x0 + slope * (uniforms - cdf0)
+            # The density is linear inside an interval, so its mass is quadratic in the position
+            ys_cont = self._ys_padded[self._continuous_flat_indices]
+            y0 = ys_cont.gather(dim=1, index=indices - 1)
+            y1 = ys_cont.gather(dim=1, index=indices)
+            u = ((uniforms - cdf0) / (cdf1 - cdf0).clamp_min(1e-12)).clamp(0.0, 1.0)
+            root = torch.sqrt(y0**2 + u * (y1**2 - y0**2))
+            cont_samples = x0 + (x1 - x0) * u * (y0 + y1) / (y0 + root).clamp_min(1e-12)
             flat_samples[:, self._continuous_flat_indices] = cont_samples.transpose(0, 1)
 
         continuous_lookup = set(self._continuous_flat_indices.tolist())
-- 
2.43.0


From c9f538c0108f5f0c60724ae1d59a2a3e0b1cbfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 29/72] fix: discrete piecewise-linear leaves are normalised by
 their sum, whatever the spacing of the values

---
 spflow/modules/leaves/piecewise_linear.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/spflow/modules/leaves/piecewise_linear.py b/spflow/modules/leaves/piecewise_linear.py
index bf78013..a8e8d23 100644
--- a/spflow/modules/leaves/piecewise_linear.py
+++ b/spflow/modules/leaves/piecewise_linear.py
@@ -572,10 +572,9 @@ class PiecewiseLinear(LeafModule):
                             # If no data in cluster, use uniform
                             densities = torch.ones(len(mids), device=device) / len(mids)
                         else:
-                            # Compute histogram densities
-                            densities = torch.histogram(
-                                data_subset.cpu(), bins=breaks.cpu(), density=True
-                            ).hist.to(device)
+                            # Compute the frequency of every value, whatever their spacing
+                            densities = torch.histogram(data_subset.cpu(), bins=breaks.cpu()).hist.to(device)
+                            densities = densities / data_subset.shape[0]
 
                     elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                         # Find histogram bins using automatic bin width
@@ -633,12 +632,15 @@ class PiecewiseLinear(LeafModule):
                     x = torch.tensor(x, device=device, dtype=torch.float32)
                     y = torch.tensor(y, device=device, dtype=torch.float32)
 
-                    # Compute AUC using the trapeziod rule
-                    auc = torch.trapezoid(y=y, x=x)
+                    # Total mass: a sum over discrete values, else the AUC by the trapezoid rule
+                    if self.domains[i_feature].data_type == DataType.DISCRETE:
+                        total = y.sum()
+                    else:
+                        total = torch.trapezoid(y=y, x=x)
 
-                    # Normalize y to sum to 1 using AUC
-                    if auc > 0:
-                        y = y / auc
+                    # Normalize y to total mass 1
+                    if total > 0:
+                        y = y / total
 
                     xs_channels.append(x)
                     ys_channels.append(y)
-- 
2.43.0


From b9f72db35a1549674dbf3a52a622b27a9a39b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 30/72] fix: RatSPN and Einet draw the class given the evidence

---
 spflow/zoo/einet/einet.py |  3 +++
 spflow/zoo/rat/rat_spn.py | 37 ++++++++++++++++++++-----------------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/spflow/zoo/einet/einet.py b/spflow/zoo/einet/einet.py
index 5605810..3da63f3 100644
--- a/spflow/zoo/einet/einet.py
+++ b/spflow/zoo/einet/einet.py
@@ -453,6 +453,9 @@ class Einet(Module, Classifier):
                 )
             logits = rearrange(logits, "1 co 1 -> 1 1 co")
             logits = repeat(logits, "1 1 co -> b 1 co", b=batch_size)
+            class_lls = cache["log_likelihood"].get(self.root_node.inputs)
+            if class_lls is not None:
+                logits = logits + rearrange(class_lls, "b 1 co 1 -> b 1 co")
 
             if sampling_ctx.is_mpe:
                 sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
diff --git a/spflow/zoo/rat/rat_spn.py b/spflow/zoo/rat/rat_spn.py
index 21c08b4..68d4661 100644
--- a/spflow/zoo/rat/rat_spn.py
+++ b/spflow/zoo/rat/rat_spn.py
@@ -290,23 +290,6 @@ class RatSPN(Module, Classifier):
             return_leaf_params=return_leaf_params,
         )
 
-        # Draw root routing for public sampling entrypoint.
-        if self.n_root_nodes > 1:
-            logits = self.root_node.logits
-            if logits.ndim == 4 and logits.shape[-1] == 1:
-                logits = logits.squeeze(-1)
-            if logits.shape != (1, self.n_root_nodes, 1):
-                raise InvalidParameterError(
-                    f"Expected logits shape (1, {self.n_root_nodes}, 1), but got {logits.shape}"
-                )
-            logits = rearrange(logits, "1 co 1 -> 1 1 co")
-            logits = repeat(logits, "1 1 co -> b 1 co", b=batch_size)  # shape [b, 1, n_root_nodes]
-
-            if sampling_ctx.is_mpe:
-                sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
-            else:
-                sampling_ctx.channel_index = torch.distributions.Categorical(logits=logits).sample()
-
         samples = self._sample(
             data=data,
             sampling_ctx=sampling_ctx,
@@ -322,6 +305,26 @@ class RatSPN(Module, Classifier):
         sampling_ctx: SamplingContext,
         cache: Cache,
     ) -> torch.Tensor:
+        # Draw root routing given the evidence.
+        if self.n_root_nodes > 1:
+            logits = self.root_node.logits
+            if logits.ndim == 4 and logits.shape[-1] == 1:
+                logits = logits.squeeze(-1)
+            if logits.shape != (1, self.n_root_nodes, 1):
+                raise InvalidParameterError(
+                    f"Expected logits shape (1, {self.n_root_nodes}, 1), but got {logits.shape}"
+                )
+            logits = rearrange(logits, "1 co 1 -> 1 1 co")
+            logits = repeat(logits, "1 1 co -> b 1 co", b=data.shape[0])  # shape [b, 1, n_root_nodes]
+            class_lls = cache["log_likelihood"].get(self.root_node.inputs)
+            if class_lls is not None:
+                logits = logits + rearrange(class_lls, "b 1 co 1 -> b 1 co")
+
+            if sampling_ctx.is_mpe:
+                sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
+            else:
+                sampling_ctx.channel_index = torch.distributions.Categorical(logits=logits).sample()
+
         # if the model only has one root node, we can directly sample from the mixing layer
         if self.n_root_nodes > 1:
             sample_root = self.root_node.inputs
-- 
2.43.0


From dd07b7a1dea828930d4960dd0b55a8ac6f64fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:50 +0000
Subject: [PATCH 31/72] fix: inner product of Poisson leaves with large rates
 is finite

---
 spflow/utils/inner_product_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 3550579..226a9d0 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -198,8 +198,8 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         l1 = rearrange(a.rate.to(dtype=torch.float64), "f ci r -> f ci 1 r").clamp_min(0.0)
         l2 = rearrange(b.rate.to(dtype=torch.float64), "f co r -> f 1 co r").clamp_min(0.0)
         z = 2.0 * torch.sqrt((l1 * l2).clamp_min(0.0))
-        i0 = getattr(torch, "i0", torch.special.i0)
-        return torch.exp(-(l1 + l2)) * i0(z)
+        # exp(-(l1 + l2)) * i0(z), with the exponentially scaled Bessel function so that neither factor over- or underflows.
+        return torch.exp(z - (l1 + l2)) * torch.special.i0e(z)
 
     if isinstance(a, Gamma) and isinstance(b, Gamma):
         a1 = rearrange(a.concentration.to(dtype=torch.float64), "f ci r -> f ci 1 r").clamp_min(1e-30)
-- 
2.43.0


From 781061e4cbbf532e8236edebfa7e5928d5966b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:50 +0000
Subject: [PATCH 32/72] fix: inner product of single-bin histograms keeps
 channels and repetitions

---
 spflow/utils/inner_product_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 226a9d0..f36538a 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -335,8 +335,8 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         in2 = (mids >= edges2[0]) & (mids < edges2[-1])
         mask = (in1 & in2).to(dtype=torch.float64)
 
-        d1 = dens1.index_select(-1, idx1).squeeze(-1)  # (F,Ca,1,R,S)
-        d2 = dens2.index_select(-1, idx2).squeeze(-1)  # (F,1,Cb,R,S)
+        d1 = dens1.index_select(-1, idx1)  # (F,Ca,1,R,S)
+        d2 = dens2.index_select(-1, idx2)  # (F,1,Cb,R,S)
         prod = d1 * d2  # (F,Ca,Cb,R,S)
         out = torch.sum(prod * rearrange(seg_len * mask, "s -> 1 1 1 1 s"), dim=-1)
         return out
-- 
2.43.0


From e475cc4aaba49be0a91c4346b1ea4f5eb9ed86f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:50 +0000
Subject: [PATCH 33/72] fix: inner products of negative binomials sum the
 series to convergence

---
 spflow/utils/inner_product_core.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index f36538a..d5c50ec 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -97,15 +97,16 @@ def _series_logsumexp(
     device: torch.device,
     dtype: torch.dtype = torch.float64,
 ) -> Tensor:
-    # Generic positive-series accumulator in log-space. log_terms_fn(k) -> log term tensor.
+    # Generic positive-series accumulator in log-space. log_terms_fn(ks) -> log terms, stacked along dim 0.
     logS = torch.full((), float("-inf"), dtype=dtype, device=device)
-    for k in range(max_k + 1):
-        lt = log_terms_fn(k)
-        logS = torch.logaddexp(logS, lt)
-        if k >= 32:
-            # Relative contribution bound: exp(lt-logS) < tol
-            if torch.all((lt - logS) < torch.log(torch.tensor(tol, dtype=dtype, device=device))):
-                break
+    log_tol = torch.log(torch.tensor(tol, dtype=dtype, device=device))
+    block = 256
+    for start in range(0, max_k + 1, block):
+        lt = log_terms_fn(torch.arange(start, min(start + block, max_k + 1), dtype=dtype, device=device))
+        logS = torch.logaddexp(logS, torch.logsumexp(lt, dim=0))
+        # Relative contribution bound: exp(lt-logS) < tol
+        if torch.all((lt[-1] - logS) < log_tol):
+            break
     return logS
 
 
@@ -290,8 +291,8 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         p2 = rearrange(b.probs.to(dtype=torch.float64), "f co r -> f 1 co r").clamp_min(1e-30).clamp_max(1.0)
         q = p1 * p2
 
-        def log_term(k: int) -> Tensor:
-            kk = torch.tensor(float(k), dtype=torch.float64, device=q.device)
+        def log_term(ks: Tensor) -> Tensor:
+            kk = rearrange(ks, "k -> k 1 1 1 1")
             # (r1)_k (r2)_k / (k!)^2 * (p1 p2)^k * (1-p1)^r1 (1-p2)^r2
             lt = (
                 torch.lgamma(r1 + kk)
@@ -304,7 +305,7 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
             const = r1 * torch.log((1.0 - p1).clamp_min(1e-30)) + r2 * torch.log((1.0 - p2).clamp_min(1e-30))
             return lt + const
 
-        logS = _series_logsumexp(log_terms_fn=log_term, max_k=4096, tol=1e-12, device=q.device)
+        logS = _series_logsumexp(log_terms_fn=log_term, max_k=1_000_000, tol=1e-12, device=q.device)
         return torch.exp(logS)
 
     if isinstance(a, Histogram) and isinstance(b, Histogram):
@@ -845,8 +846,8 @@ def triple_product_tensor(
             )
             q = p1 * p2 * p3
 
-            def log_term(k: int) -> Tensor:
-                kk = torch.tensor(float(k), dtype=torch.float64, device=q.device)
+            def log_term(ks: Tensor) -> Tensor:
+                kk = rearrange(ks, "k -> k 1 1 1 1 1")
                 lt = (
                     torch.lgamma(r1 + kk)
                     - torch.lgamma(r1)
@@ -864,7 +865,7 @@ def triple_product_tensor(
                 )
                 return lt + const
 
-            logS = _series_logsumexp(log_terms_fn=log_term, max_k=4096, tol=1e-12, device=q.device)
+            logS = _series_logsumexp(log_terms_fn=log_term, max_k=1_000_000, tol=1e-12, device=q.device)
             out = torch.exp(logS)
         elif isinstance(a, Histogram) and isinstance(b, Histogram) and isinstance(c, Histogram):
             edges1 = a.bin_edges.to(dtype=torch.float64, device=a.device)
-- 
2.43.0


From 094cfffc504dca7d7302cd956cbb0968a7b9f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 34/72] fix: inner products reject leaves whose features list
 the variables in different orders

---
 spflow/utils/inner_product_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index d5c50ec..a4e5cf5 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -58,6 +58,8 @@ def _leaf_event_shape_ok(a: LeafModule, b: LeafModule) -> None:
         raise ShapeError("Leaf features must match for inner product.")
     if a.out_shape.repetitions != b.out_shape.repetitions:
         raise ShapeError("Leaf repetitions must match for inner product.")
+    if tuple(a.scope.query) != tuple(b.scope.query):
+        raise ShapeError("Leaf features must list the variables in the same order for inner product.")
 
 
 def _binomial_logpmf(k: Tensor, n: Tensor, p: Tensor) -> Tensor:
@@ -664,6 +666,8 @@ def triple_product_tensor(
     )
 
     if a_is_leaf_like and b_is_leaf_like and c_is_leaf_like:
+        _leaf_event_shape_ok(cast(LeafModule, a), cast(LeafModule, b))
+        _leaf_event_shape_ok(cast(LeafModule, a), cast(LeafModule, c))
         # Handle a subset of leaf triples explicitly; otherwise reduce to finite sums/interval overlap where possible.
         if (
             _SignedCategorical is not None
-- 
2.43.0


From 2c824f78bccb702322f6a17de879147ecede591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 35/72] fix: abs-weight proposals for signed sums with several
 output channels

---
 spflow/learn/build_socs.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/spflow/learn/build_socs.py b/spflow/learn/build_socs.py
index 25d6708..0069b24 100644
--- a/spflow/learn/build_socs.py
+++ b/spflow/learn/build_socs.py
@@ -124,12 +124,8 @@ def build_abs_weight_proposal(component: Module, *, eps: float = 1e-8) -> Module
         w = node.weights.detach()
         w = torch.abs(w) + w.new_tensor(float(eps))
         w = w / w.sum(dim=1, keepdim=True).clamp_min(1e-12)
-        return Sum(
-            inputs=node.inputs,
-            out_channels=node.out_shape.channels,
-            num_repetitions=node.out_shape.repetitions,
-            weights=w,
-        )
+        # The weights determine the number of output channels and repetitions.
+        return Sum(inputs=node.inputs, weights=w)
 
     def _is_signed_categorical(node: torch.nn.Module) -> bool:
         return (
-- 
2.43.0


From 140e99446327f875a6496b8ef957a707c713b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:10 +0000
Subject: [PATCH 36/72] fix: SOS models with unbalanced region graphs and
 differing input and sum units

---
 spflow/zoo/sos/models.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/spflow/zoo/sos/models.py b/spflow/zoo/sos/models.py
index 82b8cfc..856483b 100644
--- a/spflow/zoo/sos/models.py
+++ b/spflow/zoo/sos/models.py
@@ -38,6 +38,7 @@ class _CircuitConfig:
     num_variables: int
     non_monotonic: bool
     non_monotonic_inputs: bool
+    map_leaves: bool
 
 
 def _default_generator(seed: int) -> torch.Generator:
@@ -181,15 +182,25 @@ def _make_signed_sum(
     )
 
 
+def _make_sum(inputs: Module, cfg: _CircuitConfig, *, generator: torch.Generator) -> Module:
+    if cfg.non_monotonic:
+        return _make_signed_sum(inputs, out_channels=cfg.num_sum_units, cfg=cfg, generator=generator)
+    return Sum(inputs=inputs, out_channels=cfg.num_sum_units, num_repetitions=inputs.out_shape.repetitions)
+
+
 def _instantiate_tree(node: _TreeNode, cfg: _CircuitConfig, *, generator: torch.Generator) -> Module:
     if not node.children:
         return _make_leaf(node.scope, cfg, generator=generator)
 
     children = [_instantiate_tree(ch, cfg, generator=generator) for ch in node.children]
+    if cfg.map_leaves and any(ch.children for ch in node.children):
+        # Unbalanced trees put leaves next to sums: map their input units to sum units.
+        children = [
+            child if ch.children else _make_sum(child, cfg, generator=generator)
+            for ch, child in zip(node.children, children)
+        ]
     prod = Product(children)
-    if cfg.non_monotonic:
-        return _make_signed_sum(prod, out_channels=cfg.num_sum_units, cfg=cfg, generator=generator)
-    return Sum(inputs=prod, out_channels=cfg.num_sum_units, num_repetitions=prod.out_shape.repetitions)
+    return _make_sum(prod, cfg, generator=generator)
 
 
 def _finalize_scalar(
@@ -424,6 +435,7 @@ class SOSModel(Module):
             num_variables=num_variables,
             non_monotonic=True,
             non_monotonic_inputs=bool(non_monotonic_inputs),
+            map_leaves=num_input_units != num_sum_units,
         )
 
         comps: list[Module] = []
@@ -558,6 +570,8 @@ class ExpSOSModel(Module):
 
         num_states = _resolve_num_states(input_layer, input_layer_kwargs)
 
+        # Both circuits need the same structure for the exact normalizer.
+        map_leaves = num_input_units != num_sum_units or mono_num_input_units != mono_num_sum_units
         comp_cfg = _CircuitConfig(
             num_input_units=num_input_units,
             num_sum_units=num_sum_units,
@@ -566,6 +580,7 @@ class ExpSOSModel(Module):
             num_variables=num_variables,
             non_monotonic=True,
             non_monotonic_inputs=bool(non_monotonic_inputs),
+            map_leaves=map_leaves,
         )
 
         mono_cfg = _CircuitConfig(
@@ -576,6 +591,7 @@ class ExpSOSModel(Module):
             num_variables=num_variables,
             non_monotonic=False,
             non_monotonic_inputs=False,
+            map_leaves=map_leaves,
         )
 
         # ExpSOS uses one region graph for both monotone and non-monotone circuits.
-- 
2.43.0


From a12bf56449d44cbc4a4a9040fde9887821285688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:56 +0000
Subject: [PATCH 37/72] fix: leave-one-out weight of evidence stays NaN for the
 rows missing a feature

---
 spflow/measures/weight_of_evidence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/measures/weight_of_evidence.py b/spflow/measures/weight_of_evidence.py
index 98c5b48..bdacede 100644
--- a/spflow/measures/weight_of_evidence.py
+++ b/spflow/measures/weight_of_evidence.py
@@ -203,7 +203,7 @@ def weight_of_evidence_leave_one_out(
             repetition_agg=repetition_agg,
         )
 
-        out[:, j] = w
+        out[:, j] = torch.where(score_mask[:, j], w, out[:, j])
 
     return out
 
-- 
2.43.0


From 810e9e3f976be3abeb307fa0fc484b62ddf7938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:56 +0000
Subject: [PATCH 38/72] fix: exact entropy of circuits whose variables are not
 numbered 0..n-1

---
 spflow/measures/information_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/measures/information_theory.py b/spflow/measures/information_theory.py
index 140e409..4ae695a 100644
--- a/spflow/measures/information_theory.py
+++ b/spflow/measures/information_theory.py
@@ -58,7 +58,7 @@ def entropy(
         if grid.dim() == 1:
             grid = grid.unsqueeze(1)
 
-        d = len(model.scope.query)
+        d = max(model.scope.query) + 1
         data = torch.full((grid.shape[0], d), torch.nan, device=model.device, dtype=torch.get_default_dtype())
         for j, rv in enumerate(rvs):
             data[:, rv] = grid[:, j]
-- 
2.43.0


From 62d8721414438a86e64568c7cd69305287122abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 39/72] fix: prune_sums leaves sums with several channels or
 over concatenated features alone

---
 spflow/learn/learn_spn.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 8323844..88ff251 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -38,8 +38,10 @@ def prune_sums(node):
         new_children = []
         new_weights = []
         if isinstance(child, Cat):
-            # prune if all children of the cat module are sums
-            all_sums = all(isinstance(c, Sum) for c in child.inputs)
+            # prune if all children of the cat module are single-channel sums concatenated along channels
+            all_sums = child.dim == 2 and all(
+                isinstance(c, Sum) and c.out_shape.channels == 1 for c in child.inputs
+            )
             if all_sums:
                 for j, c in enumerate(child.inputs):
                     new_children.append(c.inputs)
@@ -54,7 +56,7 @@ def prune_sums(node):
                 )
             updated_weights = torch.concatenate(updated_weights, dim=1)
 
-            all_cat = all(isinstance(c, Cat) for c in new_children)
+            all_cat = all(isinstance(c, Cat) and c.dim == 2 for c in new_children)
             if all_cat:
                 # if cat(cat) -> cat
                 node.inputs = Cat([input_elem for c in new_children for input_elem in c.inputs], dim=2)
-- 
2.43.0


From 82343bc7bfbfc15e16d7dffe7015965f335dfb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 40/72] fix: learn_spn accepts a single leaf module together
 with a scope

---
 spflow/learn/learn_spn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 88ff251..3aed328 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -232,7 +232,9 @@ def learn_spn(
                 scope = leaf_modules[0].scope
         else:
             scope = leaf_modules.scope
-            leaf_modules = [leaf_modules]
+
+    if not isinstance(leaf_modules, list):
+        leaf_modules = [leaf_modules]
 
     # Verify that all indices in scope are valid for the data
     # if len(scope.query) > 0 and max(scope.query) >= data.shape[1]:
-- 
2.43.0


From a14888a9dd4d6c1b6547d172d13af77e215a44e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 41/72] fix: structure learners reject variables that no leaf
 module covers

---
 spflow/learn/learn_spn.py  | 2 ++
 spflow/learn/prometheus.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 3aed328..e547a86 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -287,6 +287,8 @@ def learn_spn(
         """
         leaves = []
         s = set(scope.query)
+        if not s.issubset(v for leaf_module in leaf_modules for v in leaf_module.scope.query):
+            raise ValueError(f"Leaf modules must cover all variables of the scope {scope.query}.")
         for leaf_module in leaf_modules:
             leaf_scope = set(leaf_module.scope.query)
             scope_inter = s.intersection(leaf_scope)
diff --git a/spflow/learn/prometheus.py b/spflow/learn/prometheus.py
index da6cae4..e8f04f1 100644
--- a/spflow/learn/prometheus.py
+++ b/spflow/learn/prometheus.py
@@ -329,7 +329,7 @@ def _create_partitioned_mv_leaf(
         leaf.maximum_likelihood_estimation(data)
         leaves.append(leaf)
 
-    if not leaves:
+    if not requested.issubset(v for leaf in leaves for v in leaf.scope.query):
         raise InvalidParameterError(
             f"No leaf module covers requested scope {tuple(scope.query)}. "
             f"Provide leaf_modules whose scopes cover all variables."
-- 
2.43.0


From 446a4c9bc459bcc654fb568e48f4f9bdd11a55ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 42/72] fix: cutset networks over data in which a category does
 not occur

---
 spflow/learn/cnet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/learn/cnet.py b/spflow/learn/cnet.py
index 8edc05a..83d868e 100644
--- a/spflow/learn/cnet.py
+++ b/spflow/learn/cnet.py
@@ -248,6 +248,10 @@ def learn_cnet(
         if len(non_empty) == 1:
             return branches[non_empty[0][0]]
 
+        # Branches without data carry no mass (a Sum only takes positive weights)
+        branches = [branches[i] for i, _ in non_empty]
+        weights_list = [w for _, w in non_empty]
+
         # Create Sum node over branches
         # Weight shape needs to account for each child's out_channels
         # Sum expects: (features, in_channels, out_channels, repetitions)
-- 
2.43.0


From 84995bc74521860a8da38cbce5afec6f5f44b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 43/72] fix: top-k spanning trees of maximal weight

---
 spflow/zoo/hclt/topk_mst.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/spflow/zoo/hclt/topk_mst.py b/spflow/zoo/hclt/topk_mst.py
index d5ed65a..6e68c85 100644
--- a/spflow/zoo/hclt/topk_mst.py
+++ b/spflow/zoo/hclt/topk_mst.py
@@ -105,24 +105,25 @@ def mst_with_constraints(
         raise ShapeError("reuse must have the same shape as weights.")
 
     reuse[:, :] = weights
+    last = np.inf if minimize else -np.inf
 
     n = int(weights.shape[0])
     if dropout_prob > 0.0:
         rng = rng or np.random.default_rng()
         mask = rng.random((n, n)) < dropout_prob
         mask = np.triu(mask, k=1)
-        reuse[mask] = np.inf
-        reuse[(mask.T)] = np.inf
+        reuse[mask] = last
+        reuse[(mask.T)] = last
 
     included = {_canon_edge(e) for e in included_edges}
     excluded = {_canon_edge(e) for e in excluded_edges}
 
     for a, b in included:
-        reuse[a, b] = -np.inf
-        reuse[b, a] = -np.inf
+        reuse[a, b] = -last
+        reuse[b, a] = -last
     for a, b in excluded:
-        reuse[a, b] = np.inf
-        reuse[b, a] = np.inf
+        reuse[a, b] = last
+        reuse[b, a] = last
 
     mst = kruskal_mst_complete(reuse, minimize=minimize)
     mst_set = set(mst)
@@ -175,7 +176,8 @@ def topk_mst(
         return (tuple(mst_edges), tuple(included_edges), tuple(excluded_edges))
 
     heap: list[tuple[float, tuple, list[Edge], list[Edge], list[Edge]]] = []
-    heappush(heap, (float(total0), key_for(mst0, [], []), mst0, [], []))
+    sign = 1.0 if minimize else -1.0
+    heappush(heap, (sign * float(total0), key_for(mst0, [], []), mst0, [], []))
 
     out: list[list[Edge]] = []
     while heap and len(out) < num_trees:
@@ -217,6 +219,6 @@ def topk_mst(
                 continue
             inc = list(included_edges)
             exc = list(excluded_edges)
-            heappush(heap, (float(cand_total), key_for(cand_mst, inc, exc), cand_mst, inc, exc))
+            heappush(heap, (sign * float(cand_total), key_for(cand_mst, inc, exc), cand_mst, inc, exc))
 
     return out
-- 
2.43.0


From 24caabfc7cea9eabb8642d297597b76edf8516d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 44/72] fix: randomly initialised hidden Chow-Liu trees keep
 their hidden states

---
 spflow/zoo/hclt/learn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/zoo/hclt/learn.py b/spflow/zoo/hclt/learn.py
index 0a45733..3c5bbbf 100644
--- a/spflow/zoo/hclt/learn.py
+++ b/spflow/zoo/hclt/learn.py
@@ -67,7 +67,11 @@ def _build_hclt_from_tree(
                 continue
             child_sub = build_subtree(ch, node)
             weights = None if init != "uniform" else uniform_sum_weights(num_hidden_cats, num_hidden_cats)
-            trans = Sum(inputs=child_sub) if weights is None else Sum(inputs=child_sub, weights=weights)
+            trans = (
+                Sum(inputs=child_sub, out_channels=num_hidden_cats)
+                if weights is None
+                else Sum(inputs=child_sub, weights=weights)
+            )
             child_msgs.append(trans)
 
         if not child_msgs:
-- 
2.43.0


From 336b2e5c413c8c6f824d8c4e7e75ecca1503f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:19 +0000
Subject: [PATCH 45/72] fix: cutset networks whose branches hold a single
 instance can be queried

---
 spflow/learn/cnet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spflow/learn/cnet.py b/spflow/learn/cnet.py
index 83d868e..d92bc60 100644
--- a/spflow/learn/cnet.py
+++ b/spflow/learn/cnet.py
@@ -297,6 +297,12 @@ def _create_leaf(
     """Create a leaf node (CLTree or Categorical)."""
     n_features = len(scope.query)
 
+    if n_features >= 2 and data_slice.shape[0] == 1:
+        # A tree cannot be fitted to a single instance: treat the variables as independent
+        return Product(
+            [_create_leaf(data_slice, Scope([v]), cardinalities, out_channels, alpha) for v in scope.query]
+        )
+
     if n_features >= 2:
         # Use CLTree for multivariate scope
         K = max(cardinalities[v] for v in scope.query)
-- 
2.43.0


From 4f3696d7d0e0608e9876d51536d2a3d5377d5af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:09 +0000
Subject: [PATCH 46/72] fix: cutset network leaves put no mass on categories a
 variable does not have

---
 spflow/learn/cnet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spflow/learn/cnet.py b/spflow/learn/cnet.py
index d92bc60..4bb0ed5 100644
--- a/spflow/learn/cnet.py
+++ b/spflow/learn/cnet.py
@@ -314,6 +314,12 @@ def _create_leaf(
         )
         if data_slice.shape[0] >= 2:
             leaf.maximum_likelihood_estimation(data_slice)
+        # The tree shares one K between its variables: those with fewer categories put no mass beyond them
+        with torch.no_grad():
+            log_cpt = leaf.log_cpt.detach().clone()
+            for i, var in enumerate(leaf.scope.query):
+                log_cpt[i, :, :, cardinalities[var] :] = -float("inf")
+            leaf.log_cpt.data = log_cpt.log_softmax(dim=3)
         return leaf
     else:
         # Use Categorical for single variable
-- 
2.43.0


From 2eff40459a85567982eeefc213badc2afa67a58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:10 +0000
Subject: [PATCH 47/72] fix: outer products take the number of parts from the
 split they are given

---
 spflow/modules/products/outer_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index b2f2e9c..fac0f05 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -58,7 +58,7 @@ class OuterProduct(BaseProduct):
             if num_splits is None or num_splits <= 1:
                 raise ValueError("num_splits must be at least 2 when input is a single module")
 
-        self.num_splits = num_splits
+        self.num_splits = self.inputs[0].num_splits if self.input_is_split else num_splits
 
         # Store unraveled channel indices from actual child channel counts.
         if self.input_is_split:
-- 
2.43.0


From ff36fba37a6eb3c98b4bacf6dcbaece8ae75e425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 48/72] fix: RAT-SPNs factorise their variables into
 num_splits^depth parts and reject depth 0

---
 spflow/modules/rat/factorize.py | 14 +++++++++++---
 spflow/zoo/rat/rat_spn.py       | 13 ++++++++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/spflow/modules/rat/factorize.py b/spflow/modules/rat/factorize.py
index 652d802..3a3d2e6 100644
--- a/spflow/modules/rat/factorize.py
+++ b/spflow/modules/rat/factorize.py
@@ -41,6 +41,7 @@ class Factorize(BaseProduct):
         inputs: list[Module] | Module,
         depth: int,
         num_repetitions: int,
+        num_splits: int = 2,
     ) -> None:
         """Initialize factorize module.
 
@@ -48,6 +49,7 @@ class Factorize(BaseProduct):
             inputs: Leaf modules or single module to factorize.
             depth: Depth parameter (output features = 2^depth).
             num_repetitions: Number of parallel randomizations.
+            num_splits: Number of parts a region is split into (output features = num_splits^depth).
         """
         if isinstance(inputs, list):
             if len(inputs) > 1:
@@ -57,6 +59,7 @@ class Factorize(BaseProduct):
         super().__init__(inputs=inputs)
 
         self.depth = depth
+        self.region_splits = num_splits
         indices = self._factorize(
             depth, num_repetitions
         )  # shape: [num_features_in, num_features_out, num_repetitions]
@@ -70,7 +73,9 @@ class Factorize(BaseProduct):
 
         # Shape computation
         self.in_shape = self.inputs[0].out_shape
-        self.out_shape = ModuleShape(2**self.depth, self.inputs[0].out_shape.channels, num_repetitions)
+        self.out_shape = ModuleShape(
+            self.region_splits**self.depth, self.inputs[0].out_shape.channels, num_repetitions
+        )
 
     @property
     def feature_to_scope(self) -> np.ndarray:
@@ -113,7 +118,7 @@ class Factorize(BaseProduct):
         """
         scope = self.inputs[0].scope
         num_features = len(scope.query)
-        num_features_out = 2**depth
+        num_features_out = self.region_splits**depth
         if num_features < num_features_out:
             raise StructureError(
                 f"Number of input features ({num_features}) must be at least equal to the number of output "
@@ -305,5 +310,8 @@ class Factorize(BaseProduct):
             return marg_child
         else:
             return Factorize(
-                inputs=[marg_child], depth=self.depth, num_repetitions=self.out_shape.repetitions
+                inputs=[marg_child],
+                depth=self.depth,
+                num_repetitions=self.out_shape.repetitions,
+                num_splits=self.region_splits,
             )
diff --git a/spflow/zoo/rat/rat_spn.py b/spflow/zoo/rat/rat_spn.py
index 68d4661..614126c 100644
--- a/spflow/zoo/rat/rat_spn.py
+++ b/spflow/zoo/rat/rat_spn.py
@@ -112,6 +112,14 @@ class RatSPN(Module, Classifier):
                 f"Specified value for 'n_leaf_nodes' must be at least 1, but is {self.n_leaf_nodes}."
             )
 
+        if depth < 1:
+            raise InvalidParameterError(f"Specified value for 'depth' must be at least 1, but is {depth}.")
+
+        if num_repetitions < 1:
+            raise InvalidParameterError(
+                f"Specified value for 'num_repetitions' must be at least 1, but is {num_repetitions}."
+            )
+
         if self.num_splits < 2:
             raise InvalidParameterError(
                 f"Specified value for 'num_splits' must be at least 2, but is {self.num_splits}."
@@ -137,7 +145,10 @@ class RatSPN(Module, Classifier):
             product_layer = ElementwiseProduct
         # Factorize the leaves modules
         fac_layer = Factorize(
-            inputs=self.leaf_modules, depth=self.depth, num_repetitions=self.num_repetitions
+            inputs=self.leaf_modules,
+            depth=self.depth,
+            num_repetitions=self.num_repetitions,
+            num_splits=self.split_mode.num_splits,
         )
         depth = self.depth
         root = None
-- 
2.43.0


From 450b145308fc855f726675cd0f28b7aa3c0b2752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:55 +0000
Subject: [PATCH 49/72] fix: convolutional circuits cover every pixel when the
 padding is odd and reject inputs which are no square grid

---
 spflow/modules/conv/prod_conv.py | 16 +++++++---------
 spflow/zoo/conv/conv_pc.py       | 18 ++++++++++++++++--
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/spflow/modules/conv/prod_conv.py b/spflow/modules/conv/prod_conv.py
index 9ce998c..4db215d 100644
--- a/spflow/modules/conv/prod_conv.py
+++ b/spflow/modules/conv/prod_conv.py
@@ -275,25 +275,23 @@ class ProdConv(Module):
 
             # Handle explicit padding case: trim padded spatial positions to input size.
             if upsampled_features > in_features:
-                expected_padded_features = (self._input_h + 2 * self.padding_h) * (
-                    self._input_w + 2 * self.padding_w
-                )
+                covered_h = self._output_h * self.kernel_size_h
+                covered_w = self._output_w * self.kernel_size_w
                 if self.padding_h == 0 and self.padding_w == 0:
                     raise ShapeError(
                         "ProdConv.sample received oversized upsampled feature width without padding: "
                         f"got {upsampled_features}, input features are {in_features}."
                     )
-                if upsampled_features != expected_padded_features:
+                if covered_h < self._input_h + self.padding_h or covered_w < self._input_w + self.padding_w:
                     raise ShapeError(
-                        "ProdConv.sample only trims in the exact padding case. "
-                        f"Got upsampled width {upsampled_features}, expected padded width "
-                        f"{expected_padded_features}, input width {in_features}."
+                        "ProdConv.sample only trims padding. The output patches cover "
+                        f"{covered_h}x{covered_w} positions, which do not contain the "
+                        f"{self._input_h}x{self._input_w} input."
                     )
                 # Keep the pixels of the unpadded input, which lie in the interior of the padded grid.
-                padded_w = self._input_w + 2 * self.padding_w
                 rows = torch.arange(self._input_h, device=sampling_ctx.mask.device) + self.padding_h
                 cols = torch.arange(self._input_w, device=sampling_ctx.mask.device) + self.padding_w
-                interior = (rows.unsqueeze(1) * padded_w + cols.unsqueeze(0)).reshape(-1)
+                interior = (rows.unsqueeze(1) * covered_w + cols.unsqueeze(0)).reshape(-1)
                 sampling_ctx.update(
                     channel_index=sampling_ctx.channel_index[:, interior],
                     mask=sampling_ctx.mask[:, interior],
diff --git a/spflow/zoo/conv/conv_pc.py b/spflow/zoo/conv/conv_pc.py
index 30f2c78..0b5b09c 100644
--- a/spflow/zoo/conv/conv_pc.py
+++ b/spflow/zoo/conv/conv_pc.py
@@ -52,6 +52,12 @@ def compute_non_overlapping_kernel_and_padding(
     kH = math.ceil(H_data / H_target)
     kW = math.ceil(W_data / W_target)
 
+    # An odd padding fits into patches of at least two positions only.
+    if kH == 1 and (H_target - H_data) % 2 == 1:
+        kH = 2
+    if kW == 1 and (W_target - W_data) % 2 == 1:
+        kW = 2
+
     # Compute padding needed to make input + 2*padding divisible by kernel
     padded_H = kH * H_target
     padded_W = kW * W_target
@@ -59,8 +65,9 @@ def compute_non_overlapping_kernel_and_padding(
     total_pad_H = max(padded_H - H_data, 0)
     total_pad_W = max(padded_W - W_data, 0)
 
-    pH = total_pad_H // 2
-    pW = total_pad_W // 2
+    # Pad both sides alike; rounding down would cut input rows/columns off when the total is odd.
+    pH = (total_pad_H + 1) // 2
+    pW = (total_pad_W + 1) // 2
 
     return (kH, kW), (pH, pW)
 
@@ -124,6 +131,13 @@ class ConvPc(Module):
         if channels < 1:
             raise ValueError(f"channels must be >= 1, got {channels}")
 
+        if input_height != input_width:
+            raise ValueError(f"ConvPc requires square inputs, got {input_height}x{input_width}")
+        if leaf.out_shape.features != input_height * input_width:
+            raise ValueError(
+                f"leaf has {leaf.out_shape.features} features, expected {input_height}x{input_width}"
+            )
+
         self.input_height = input_height
         self.input_width = input_width
         self.kernel_size = kernel_size
-- 
2.43.0


From ce2a9ea046577f26ec74a4a7b50c42fee07e4547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:20 +0000
Subject: [PATCH 50/72] fix: the convolutional joint encoder rejects images it
 cannot arrange as one square plane

---
 spflow/zoo/apc/encoders/convpc_joint_encoder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spflow/zoo/apc/encoders/convpc_joint_encoder.py b/spflow/zoo/apc/encoders/convpc_joint_encoder.py
index 578b718..bf4fbda 100644
--- a/spflow/zoo/apc/encoders/convpc_joint_encoder.py
+++ b/spflow/zoo/apc/encoders/convpc_joint_encoder.py
@@ -307,6 +307,12 @@ class ConvPcJointEncoder(JointPcEncoderBase):
             )
         if input_channels <= 0:
             raise InvalidParameterError(f"input_channels must be >= 1, got {input_channels}.")
+        if input_height != input_width or input_channels != 1:
+            # The convolutional products arrange the input features as a single square plane.
+            raise InvalidParameterError(
+                "ConvPcJointEncoder requires square inputs with one channel, got "
+                f"{input_channels}x{input_height}x{input_width}."
+            )
         if latent_dim <= 0:
             raise InvalidParameterError(f"latent_dim must be >= 1, got {latent_dim}.")
         if channels <= 0:
-- 
2.43.0


From 5a3e2f8400c597b1a6d7f9ffb7805e1ccc3afa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:17 +0000
Subject: [PATCH 51/72] fix: tensorized quadrature circuits marginalise missing
 values

---
 spflow/zoo/pic/tensorized/qpc.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spflow/zoo/pic/tensorized/qpc.py b/spflow/zoo/pic/tensorized/qpc.py
index 2cfb8ba..8a2e67f 100644
--- a/spflow/zoo/pic/tensorized/qpc.py
+++ b/spflow/zoo/pic/tensorized/qpc.py
@@ -448,12 +448,20 @@ class TensorizedQPC(Module):
         Returns:
             Log-likelihoods of shape (B, V, K).
         """
-        B = int(data.shape[0])
         V, K, _ = leaf_param.shape
         if V != self.num_vars or K != self.num_units:
             raise ShapeError("leaf_param shape mismatch.")
 
         x = data[:, self._leaf_vars.to(device=data.device)].to(dtype=leaf_param.dtype)  # (B, V)
+        # Missing entries are marginalised: their leaves contribute a factor of one.
+        missing = torch.isnan(x)
+        leaf_ll = self._observed_leaf_log_likelihood(torch.where(missing, torch.zeros_like(x), x), leaf_param)
+        return torch.where(rearrange(missing, "b v -> b v 1"), torch.zeros_like(leaf_ll), leaf_ll)
+
+    def _observed_leaf_log_likelihood(self, x: Tensor, leaf_param: Tensor) -> Tensor:
+        """Compute per-leaf log-likelihood of fully observed values x of shape (B, V)."""
+        B = int(x.shape[0])
+        K = int(leaf_param.shape[1])
 
         if self.config.leaf_type == "normal":
             loc = leaf_param[..., 0]  # (V, K)
-- 
2.43.0


From 55238bd2794fcea56828d2afc6c7fc7da2208149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:46 +0000
Subject: [PATCH 52/72] fix: mixtures of Chow-Liu trees draw one component for
 all variables of a sample

---
 spflow/zoo/cms/continuous_mixtures.py | 8 +++++---
 spflow/zoo/cms/joint.py               | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/spflow/zoo/cms/continuous_mixtures.py b/spflow/zoo/cms/continuous_mixtures.py
index afe2d32..3b28532 100644
--- a/spflow/zoo/cms/continuous_mixtures.py
+++ b/spflow/zoo/cms/continuous_mixtures.py
@@ -889,14 +889,16 @@ def _compile_cltree(
             parents=parents,
             log_cpt=log_cpt_i,
         )
-        components.append(node)
+        # One joint feature per tree: a mixture over separate features would draw
+        # the component of each variable independently.
+        components.append(JointLogLikelihood(node))
 
     w_sum = _make_sum_weights(
         num_components=I,
-        num_features=F,
+        num_features=1,
         device=z.device,
         dtype=z.dtype,
     )
-    w_sum = _broadcast_component_weights(weights=weights.to(device=z.device, dtype=z.dtype), num_features=F)
+    w_sum = _broadcast_component_weights(weights=weights.to(device=z.device, dtype=z.dtype), num_features=1)
     mix = Sum(inputs=components, weights=w_sum)
     return JointLogLikelihood(mix)
diff --git a/spflow/zoo/cms/joint.py b/spflow/zoo/cms/joint.py
index 8ae4588..c367445 100644
--- a/spflow/zoo/cms/joint.py
+++ b/spflow/zoo/cms/joint.py
@@ -84,6 +84,9 @@ class JointLogLikelihood(Wrapper):
         sampling_ctx: SamplingContext,
         cache: Cache,
     ) -> Tensor:
+        sampling_ctx.broadcast_feature_width(
+            target_features=self.module.out_shape.features, allow_from_one=True
+        )
         return self.module._sample(data=data, cache=cache, sampling_ctx=sampling_ctx)
 
     def marginalize(self, marg_rvs: list[int], prune: bool = True, cache: Cache | None = None):
-- 
2.43.0


From 572758f8bac3fc99495d180567ea6fe86c90e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:09 +0000
Subject: [PATCH 53/72] fix: image wrappers read their pixels from the data
 columns of the wrapped module

---
 spflow/modules/wrapper/image_wrapper.py | 35 ++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/spflow/modules/wrapper/image_wrapper.py b/spflow/modules/wrapper/image_wrapper.py
index 04c181c..8b3dc06 100644
--- a/spflow/modules/wrapper/image_wrapper.py
+++ b/spflow/modules/wrapper/image_wrapper.py
@@ -141,6 +141,27 @@ class ImageWrapper(Wrapper):
                 w=image_width,
             )
 
+    def _columns(self) -> list[int]:
+        """Data columns of the wrapped module in pixel order."""
+        return sorted(self.scope.query)
+
+    def _to_module_data(self, image: Tensor) -> Tensor:
+        """Place the pixels of an image in the data columns of the wrapped module."""
+        flat = self.flatten(image)
+        columns = self._columns()
+        if columns == list(range(len(columns))):
+            return flat
+        data = flat.new_full((flat.shape[0], columns[-1] + 1), float("nan"))
+        data[:, columns] = flat
+        return data
+
+    def _to_image(self, data: Tensor) -> Tensor:
+        """Collect the pixels of an image from the data columns of the wrapped module."""
+        columns = self._columns()
+        if columns != list(range(data.shape[1])):
+            data = data[:, columns]
+        return self.to_image_format(data)
+
     def extra_repr(self):
         return f"C={self.num_channel}, H={self.height}, W={self.width}"
 
@@ -168,7 +189,7 @@ class ImageWrapper(Wrapper):
                 f"Data shape must be (batch_size, num_channel, height, width) but got {data.shape}."
             )
 
-        data = self.flatten(data)
+        data = self._to_module_data(data)
         self.module._expectation_maximization_step(data, bias_correction=bias_correction, cache=cache)
 
     @cached
@@ -200,7 +221,7 @@ class ImageWrapper(Wrapper):
             raise ShapeError(
                 f"Data shape must be (batch_size, num_channel, height, width) but got {data.shape}."
             )
-        data = self.flatten(data)
+        data = self._to_module_data(data)
 
         log_prob = self.module.log_likelihood(data, cache=cache)
 
@@ -278,14 +299,14 @@ class ImageWrapper(Wrapper):
         )
 
         # Flatten data to 2D for processing
-        flat_data = self.flatten(data)
+        flat_data = self._to_module_data(data)
 
         self.module._sample(
             data=flat_data,
             cache=cache,
             sampling_ctx=sampling_ctx,
         )
-        image = self.to_image_format(flat_data)
+        image = self._to_image(flat_data)
         if return_leaf_params:
             return image, sampling_ctx.leaf_param_records()
         return image
@@ -296,13 +317,13 @@ class ImageWrapper(Wrapper):
         sampling_ctx: SamplingContext,
         cache: Cache,
     ) -> Tensor:
-        flat_data = self.flatten(data)
+        flat_data = self._to_module_data(data)
         self.module._sample(
             data=flat_data,
             cache=cache,
             sampling_ctx=sampling_ctx,
         )
-        return self.to_image_format(flat_data)
+        return self._to_image(flat_data)
 
     def marginalize(
         self,
@@ -323,7 +344,7 @@ class ImageWrapper(Wrapper):
         """
 
         marg_rvs = []
-        scope = torch.as_tensor(self.scope.query, dtype=torch.long)
+        scope = torch.as_tensor(self._columns(), dtype=torch.long)
 
         scope = self.to_image_format(scope, batch=False)
 
-- 
2.43.0


From 3df02568a37c70ca13d903e87ac83417a9bc3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:01 +0000
Subject: [PATCH 54/72] fix: unseeded sampling of the density estimator
 advances the random state

---
 spflow/interfaces/sklearn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/interfaces/sklearn.py b/spflow/interfaces/sklearn.py
index 7a06a3d..434c64c 100644
--- a/spflow/interfaces/sklearn.py
+++ b/spflow/interfaces/sklearn.py
@@ -7,6 +7,7 @@ estimators will.
 
 from __future__ import annotations
 
+from contextlib import nullcontext
 from dataclasses import dataclass
 import math
 from typing import Any, Literal
@@ -291,7 +292,8 @@ class SPFlowDensityEstimator(BaseEstimator, DensityMixin):
         if device.type == "cuda":
             cuda_devices = [device.index or 0]
 
-        with torch.random.fork_rng(devices=cuda_devices):
+        rng_context = torch.random.fork_rng(devices=cuda_devices) if seed is not None else nullcontext()
+        with rng_context:
             if seed is not None:
                 torch.manual_seed(seed)
             with torch.no_grad():
-- 
2.43.0


From a9d69ce553c5085809a6adc1b1a67c243ba4c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:01 +0000
Subject: [PATCH 55/72] fix: classifier interface rejects a label set that does
 not match the model's classes

---
 spflow/interfaces/sklearn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/interfaces/sklearn.py b/spflow/interfaces/sklearn.py
index 434c64c..5c5f9dd 100644
--- a/spflow/interfaces/sklearn.py
+++ b/spflow/interfaces/sklearn.py
@@ -350,5 +350,9 @@ class SPFlowClassifier(BaseEstimator, ClassifierMixin):
         """Predict class labels using argmax over predicted probabilities."""
         check_is_fitted(self, attributes=["classes_"])
         probs = self.predict_proba(X)
+        if probs.shape[1] != len(self.classes_):
+            raise InvalidParameterError(
+                f"model predicts {probs.shape[1]} classes, but fit saw {len(self.classes_)} class labels."
+            )
         indices = np.argmax(probs, axis=1)
         return np.asarray(self.classes_)[indices]
-- 
2.43.0


From 47f2cd6953e1b5e22dd7a1cb3e1285cc3567adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:01 +0000
Subject: [PATCH 56/72] fix: structure statistics follow every architecture's
 sub-circuits

---
 spflow/utils/structure_stats.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/spflow/utils/structure_stats.py b/spflow/utils/structure_stats.py
index d8ae6a2..6507b3c 100644
--- a/spflow/utils/structure_stats.py
+++ b/spflow/utils/structure_stats.py
@@ -88,7 +88,8 @@ def _iter_structure_children(module: Module) -> list[Module]:
     - Skips ``Cat`` wrappers by yielding their inputs directly.
     - Expands ``nn.ModuleList`` inputs into individual child modules.
     - Includes wrapped modules via the ``Wrapper.module`` attribute.
-    - Includes ``RatSPN.root_node`` as a child.
+    - Includes the ``root_node`` of architectures (RatSPN, Einet, ...) as a child.
+    - Falls back to directly registered sub-circuits for any other container.
 
     Args:
         module: Module whose children should be returned.
@@ -129,10 +130,15 @@ def _iter_structure_children(module: Module) -> list[Module]:
             else:
                 children.append(inputs)
 
-    if module.__class__.__name__ == "RatSPN":
-        root_node = getattr(module, "root_node", None)
-        if isinstance(root_node, Module):
-            children.append(root_node)
+    root_node = getattr(module, "root_node", None)
+    if isinstance(root_node, Module):
+        children.append(root_node)
+
+    if not children and isinstance(module, torch.nn.Module):
+        # Containers that keep their sub-circuits under other names (e.g. ``components``).
+        for child in module.children():
+            grandchildren = child if isinstance(child, torch.nn.ModuleList) else [child]
+            children.extend(c for c in grandchildren if isinstance(c, Module))
 
     return children
 
-- 
2.43.0


From 3c51883a280b551db47814e170b1d79d043aba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:10 +0000
Subject: [PATCH 57/72] fix: undo the latent permutation when packing keeps the
 number of features

---
 spflow/zoo/apc/encoders/convpc_joint_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/zoo/apc/encoders/convpc_joint_encoder.py b/spflow/zoo/apc/encoders/convpc_joint_encoder.py
index bf4fbda..3e5288d 100644
--- a/spflow/zoo/apc/encoders/convpc_joint_encoder.py
+++ b/spflow/zoo/apc/encoders/convpc_joint_encoder.py
@@ -230,7 +230,7 @@ class _LatentFeaturePacking(Module):
         )
 
         ctx_features = sampling_ctx.channel_index.shape[1]
-        if ctx_features == self.in_shape.features:
+        if ctx_features == self.in_shape.features and ctx_features != self.target_features:
             return self.inputs._sample(data=data, cache=cache, sampling_ctx=sampling_ctx)
         if ctx_features == 1:
             num_target_features = self.target_features
-- 
2.43.0


From b6b163f0c760c30ef34d1fd90fa0dc9924950b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:07 +0000
Subject: [PATCH 58/72] fix: log-likelihood of a leaf with missing values can
 be differentiated

The data copy was overwritten with NaN after the log-probabilities were
computed, so backward() failed for every distribution that keeps it.
---
 spflow/modules/leaves/leaf.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 025fd73..9585ddd 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -470,11 +470,6 @@ class LeafModule(Module, ABC):
             marg_mask_for_log_prob = torch.broadcast_to(marg_mask_for_log_prob, log_prob.shape)
             log_prob[marg_mask_for_log_prob] = 0.0
 
-        # Set marginalized scope data back to NaNs
-        if has_marginalizations:
-            marg_mask_for_data = rearrange(marg_mask, "b f -> b f 1 1")
-            data_q[marg_mask_for_data] = torch.nan
-
         return log_prob
 
     def _log_likelihood_interval(
-- 
2.43.0


From f42358162edcf051dc6a2bee606ecd30e13ee453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:05 +0000
Subject: [PATCH 59/72] fix: factorized log-likelihood of impossible states is
 -inf, not NaN

The contraction with the 0/1 group matrix multiplied log-likelihoods of
features outside a group by zero, and 0 * -inf is NaN.
---
 spflow/modules/rat/factorize.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/rat/factorize.py b/spflow/modules/rat/factorize.py
index 3a3d2e6..07ecc63 100644
--- a/spflow/modules/rat/factorize.py
+++ b/spflow/modules/rat/factorize.py
@@ -167,8 +167,13 @@ class Factorize(BaseProduct):
             cache=cache,
         )  # lls[0] shape: [batch_size, num_features, num_channel, num_repetitions]
 
-        output = torch.einsum("bicr, ior->bocr", lls[0], self.indices)
-        return output
+        # Sum each group's members by index: a product with the 0/1 matrix would
+        # turn log-likelihoods of -inf outside the group into NaN (0 * -inf).
+        ll = lls[0]
+        owners = self.indices.argmax(dim=1)  # shape: [num_features_in, num_repetitions]
+        index = owners[None, :, None, :].expand(ll.shape[0], -1, ll.shape[2], -1)
+        output = ll.new_zeros((ll.shape[0], self.indices.shape[1], ll.shape[2], owners.shape[1]))
+        return output.scatter_add(1, index, ll.expand_as(index))
 
     def _sample(
         self,
-- 
2.43.0


From ed85f641783aa8bef749f1bb4f92243ae3fdf51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:37 +0000
Subject: [PATCH 60/72] fix: differentiable routing ignores impossible states
 of unselected branches

Indexing with a one-hot vector multiplied their log-likelihood -inf by
zero, so conditional differentiable sampling chose from NaN logits.
---
 spflow/utils/sampling_context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index af8cc66..00b4965 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -1117,6 +1117,8 @@ def index_one_hot(tensor: torch.Tensor, index: torch.Tensor, dim: int) -> torch.
         tensor.dim() == index.dim()
     ), f"Tensor and index number of dimensions must be the same but was tensor.dim()={tensor.dim()} and index.dim()={index.dim()}"
 
+    # Unselected infinite entries (impossible states) must not turn into NaN (inf * 0).
+    tensor = tensor.masked_fill(torch.isinf(tensor) & (index == 0), 0.0)
     return torch.sum(tensor * index, dim=dim)
 
 
-- 
2.43.0


From 059f6e76a11b21235a7a24553dd2cc10e259b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:29 +0000
Subject: [PATCH 61/72] fix: WeightedSum sampling conditions on evidence

Like Sum, weight the input channels by their cached likelihood; before, the
prior weights were used and conditional samples ignored the evidence.
---
 spflow/zoo/pic/weighted_sum.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/spflow/zoo/pic/weighted_sum.py b/spflow/zoo/pic/weighted_sum.py
index 8281293..01bc8ca 100644
--- a/spflow/zoo/pic/weighted_sum.py
+++ b/spflow/zoo/pic/weighted_sum.py
@@ -251,6 +251,21 @@ class WeightedSum(Module):
         weights = weights.gather(dim=3, index=idxs)
         weights = rearrange(weights, "b f ci 1 -> b f ci")
 
+        # Condition on evidence: weight every channel by its likelihood of the observed values
+        if "log_likelihood" in cache and cache["log_likelihood"].get(self.inputs) is not None:
+            input_lls = cache["log_likelihood"][self.inputs]
+            indices = repeat(
+                rearrange(sampling_ctx.repetition_index, "... -> (...)"),
+                "b -> b f ci 1",
+                f=int(input_lls.shape[1]),
+                ci=int(input_lls.shape[2]),
+            )
+            input_lls = rearrange(input_lls.gather(dim=-1, index=indices), "b f ci 1 -> b f ci")
+            log_posterior = torch.log(weights) + input_lls
+            # Only ratios matter; keep the largest term at one to avoid underflow.
+            shift = log_posterior.amax(dim=-1, keepdim=True)
+            weights = torch.exp(log_posterior - torch.where(torch.isinf(shift), 0.0, shift))
+
         # Sample from categorical distribution
         if sampling_ctx.is_mpe:
             new_channel_index = torch.argmax(weights, dim=-1)
-- 
2.43.0


From 17285c885aa082869f8e44aaeba4078fe0259188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:59 +0000
Subject: [PATCH 62/72] fix: shared function groups with several units and
 nested units

---
 spflow/zoo/pic/pipeline.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/spflow/zoo/pic/pipeline.py b/spflow/zoo/pic/pipeline.py
index 4fbed5f..42de18c 100644
--- a/spflow/zoo/pic/pipeline.py
+++ b/spflow/zoo/pic/pipeline.py
@@ -506,15 +506,23 @@ def pic2qpc(
             out = torch.kron(out, w)
         return out
 
+    groups_in_progress: set[FunctionGroup] = set()
+
     def materialize_integral_group(group: FunctionGroup) -> None:
+        # A unit below another unit of the same group is materialized on its own.
+        if group in groups_in_progress:
+            return
+
         # Collect only Integral units.
         units = [u for u in group.units if isinstance(u, Integral)]
         if len(units) == 0:
             return
 
         # Ensure children compiled.
+        groups_in_progress.add(group)
         for u in units:
             _visit(u.inputs)
+        groups_in_progress.remove(group)
 
         # Group by (out_dim, in_dim) because root/other integrals may differ.
         buckets: Dict[Tuple[int, int], list[Integral]] = {}
@@ -559,7 +567,8 @@ def pic2qpc(
                     raise ShapeError(
                         f"Integral child channels mismatch: expected {in_ch}, got {child.out_shape.channels}."
                     )
-                weights_mat = rearrange(vals_all[head_idx], "co ci -> ci co")
+                head = 0 if group.sharing_type == "f" else head_idx
+                weights_mat = rearrange(vals_all[head], "co ci -> ci co")
                 weights_full = repeat(
                     rearrange(weights_mat, "ci co -> 1 ci co 1"),
                     "1 ci co 1 -> f ci co 1",
-- 
2.43.0


From afaba690cd40b3765269f2c2594f310df214e84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:59 +0000
Subject: [PATCH 63/72] fix: tensorized circuits ignore masked inputs and
 handle impossible ones

---
 spflow/zoo/pic/tensorized/cp.py    |  3 ++-
 spflow/zoo/pic/tensorized/utils.py | 14 +++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/spflow/zoo/pic/tensorized/cp.py b/spflow/zoo/pic/tensorized/cp.py
index eb28177..4f22f30 100644
--- a/spflow/zoo/pic/tensorized/cp.py
+++ b/spflow/zoo/pic/tensorized/cp.py
@@ -145,7 +145,8 @@ class UncollapsedCPLayer(TensorizedLayer):
         """Reduce across arity dimension with optional masking."""
         if self.fold_mask is not None:
             mask_shape = self.fold_mask.shape + (1,) * (x.ndim - self.fold_mask.ndim)
-            x = x * self.fold_mask.view(mask_shape)
+            mask = self.fold_mask.to(dtype=torch.bool, device=x.device).view(mask_shape)
+            x = torch.where(mask, x, torch.zeros_like(x))
         return x.sum(dim=1)
 
     def _forward_out_linear(self, x: Tensor) -> Tensor:
diff --git a/spflow/zoo/pic/tensorized/utils.py b/spflow/zoo/pic/tensorized/utils.py
index 4a608fe..a38c39a 100644
--- a/spflow/zoo/pic/tensorized/utils.py
+++ b/spflow/zoo/pic/tensorized/utils.py
@@ -32,6 +32,8 @@ def log_func_exp(*x: Tensor, func: Callable[..., Tensor], dim: int, keepdim: boo
 
     # Find max for numerical stability (per tensor)
     max_x = [torch.max(xi, dim=dim, keepdim=True)[0] for xi in x]
+    # A slice of impossible inputs has no finite maximum to shift by.
+    max_x = [torch.where(torch.isneginf(m), torch.zeros_like(m), m) for m in max_x]
 
     # Subtract max and exponentiate
     exp_x = [torch.exp(xi - xi_max) for xi, xi_max in zip(x, max_x)]
@@ -112,12 +114,14 @@ def eval_mixing(x: Tensor, weights: Tensor, fold_mask: Tensor | None = None) ->
         Output log-probabilities (F, K, *B).
     """
 
+    if fold_mask is not None:
+        # Masked inputs must not take part in the maximum the exponentials are shifted by.
+        mask = fold_mask.to(dtype=torch.bool, device=x.device).view(
+            fold_mask.shape + (1,) * (x.ndim - fold_mask.ndim)
+        )
+        x = torch.where(mask, x, torch.full_like(x, float("-inf")))
+
     def linear(x_prob: Tensor) -> Tensor:
-        if fold_mask is not None:
-            mask = fold_mask.to(dtype=x_prob.dtype, device=x_prob.device).view(
-                fold_mask.shape + (1,) * (x_prob.ndim - fold_mask.ndim)
-            )
-            x_prob = x_prob * mask
         return torch.einsum("fhk,fhk...->fk...", weights, x_prob)
 
     return log_func_exp(x, func=linear, dim=1, keepdim=False)
-- 
2.43.0


From 5821f58b504e38773e239d90420c22313c5b482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:59 +0000
Subject: [PATCH 64/72] fix: RDC of linearly dependent columns

---
 spflow/utils/rdc.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/spflow/utils/rdc.py b/spflow/utils/rdc.py
index cc8af52..bad19a2 100644
--- a/spflow/utils/rdc.py
+++ b/spflow/utils/rdc.py
@@ -80,6 +80,9 @@ def rdc(x, y, f=torch.sin, k=20, s=1 / 6.0, n=1):
         eigs = torch.linalg.eigvals(
             torch.mm(torch.mm(torch.linalg.pinv(Cxx), Cxy), torch.mm(torch.linalg.pinv(Cyy), Cyx))
         )
+        if k == 1:
+            # A squared correlation leaves [0, 1] by rounding only.
+            eigs = torch.real(eigs).clamp(0.0, 1.0)
 
         # Handle complex eigenvalues properly
         if torch.is_complex(eigs):
@@ -142,6 +145,9 @@ def cca_loop(k, C):
         eigs = torch.linalg.eigvals(
             torch.mm(torch.mm(torch.linalg.pinv(Cxx), Cxy), torch.mm(torch.linalg.pinv(Cyy), Cyx))
         )
+        if k == 1:
+            # A squared correlation leaves [0, 1] by rounding only.
+            eigs = torch.real(eigs).clamp(0.0, 1.0)
 
         # Handle complex eigenvalues properly
         if torch.is_complex(eigs):
@@ -271,6 +277,9 @@ def rdc_np(x, y, f=np.sin, k=20, s=1 / 6.0, n=1):
         Cyx = C[k0 : k0 + k, :k]
 
         eigs = np.linalg.eigvals(np.dot(np.dot(np.linalg.pinv(Cxx), Cxy), np.dot(np.linalg.pinv(Cyy), Cyx)))
+        if k == 1:
+            # A squared correlation leaves [0, 1] by rounding only.
+            eigs = np.clip(np.real(eigs), 0.0, 1.0)
 
         # Binary search if k is too large
         if not (np.all(np.isreal(eigs)) and 0 <= np.min(eigs) and np.max(eigs) <= 1):
@@ -309,6 +318,9 @@ def cca_loop_np(k, C):
         Cyx = C[k0 : k0 + k, :k]
 
         eigs = np.linalg.eigvals(np.dot(np.dot(np.linalg.pinv(Cxx), Cxy), np.dot(np.linalg.pinv(Cyy), Cyx)))
+        if k == 1:
+            # A squared correlation leaves [0, 1] by rounding only.
+            eigs = np.clip(np.real(eigs), 0.0, 1.0)
 
         # Binary search if k is too large
         if not (np.all(np.isreal(eigs)) and 0 <= np.min(eigs) and np.max(eigs) <= 1):
-- 
2.43.0


From ca0a7621c1e82093098c9d5f21ab620f7349b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:59 +0000
Subject: [PATCH 65/72] fix: learn_spn terminates when clustering finds a
 single cluster

---
 spflow/learn/learn_spn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index e547a86..952c0dc 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -370,6 +370,10 @@ def learn_spn(
                         # Recurse for each label
                         #
                         # for each cluster, create a substructure
+                        # Rows that form a single cluster are not clustered again, which would never end.
+                        min_instances_cluster = min_instances_slice
+                        if len(torch.unique(labels)) == 1:
+                            min_instances_cluster = max(min_instances_slice, data.shape[0] + 1)
                         for cluster_id in torch.unique(labels):
                             sub_structure = learn_spn(
                                 data[labels == cluster_id, :],
@@ -379,7 +383,7 @@ def learn_spn(
                                 clustering_method=clustering_method,
                                 partitioning_method=partitioning_method,
                                 min_features_slice=min_features_slice,
-                                min_instances_slice=min_instances_slice,
+                                min_instances_slice=min_instances_cluster,
                             )
                             inputs_per_channel.append(sub_structure)
 
-- 
2.43.0


From ffc28ac0027b816b9bdba0baf3699b2c581306a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:00 +0000
Subject: [PATCH 66/72] fix: fitting with a distribution without any weight
 keeps parameters in their domain

---
 spflow/modules/leaves/cltree.py | 2 ++
 spflow/modules/leaves/leaf.py   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 21c95d9..f96cc49 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -419,6 +419,8 @@ class CLTree(LeafModule):
             nan_strategy = "ignore"
         scoped, weights = apply_nan_strategy(nan_strategy, scoped, self.device, weights)
         # Every distribution of this leaf has its own weights, which sum to the number of samples
+        totals = weights.sum(dim=0, keepdim=True)
+        weights = torch.where(totals > 0, weights, torch.ones_like(weights))
         weights = weights * (scoped.shape[0] / weights.sum(dim=0, keepdim=True))
         if scoped.shape[0] < 2:
             raise InvalidParameterError("CLTree requires at least 2 complete samples for MLE.")
diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 9585ddd..ca7b963 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -579,6 +579,9 @@ class LeafModule(Module, ABC):
         scoped_data, normalized_weights = apply_nan_strategy(nan_strategy, scoped_data, self.device, weights)
 
         # Step 3: Every distribution of this leaf has its own weights, which sum to the number of samples
+        # A distribution without any weight (e.g. a class without samples) has no maximiser: use all samples
+        totals = normalized_weights.sum(dim=0, keepdim=True)
+        normalized_weights = torch.where(totals > 0, normalized_weights, torch.ones_like(normalized_weights))
         normalized_weights = normalized_weights * (
             scoped_data.shape[0] / normalized_weights.sum(dim=0, keepdim=True)
         )
-- 
2.43.0


From 62614525205d76244d60f646ea51e84018150542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:55 +0000
Subject: [PATCH 67/72] fix: SignedSum._sample widens a width-1 sampling
 context to its features

---
 spflow/modules/sums/signed_sum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spflow/modules/sums/signed_sum.py b/spflow/modules/sums/signed_sum.py
index 8b0e497..17fdcef 100644
--- a/spflow/modules/sums/signed_sum.py
+++ b/spflow/modules/sums/signed_sum.py
@@ -204,6 +204,7 @@ class SignedSum(Module):
                 "SignedSum.sample() currently supports num_repetitions == 1 only."
             )
 
+        sampling_ctx.broadcast_feature_width(target_features=self.out_shape.features, allow_from_one=True)
         sampling_ctx.validate_sampling_context(
             num_samples=data.shape[0],
             num_features=self.out_shape.features,
-- 
2.43.0


From e650744daf840fcbbf525f8809ac559fb6ee8827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:00 +0000
Subject: [PATCH 68/72] fix: RepetitionMixingLayer normalises given weights
 over repetitions

---
 spflow/modules/sums/repetition_mixing_layer.py | 5 +++--
 spflow/modules/sums/sum.py                     | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 98741a0..0b73e2f 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -45,8 +45,6 @@ class RepetitionMixingLayer(Sum):
         if self.out_shape.channels != self.inputs.out_shape.channels:
             raise ValueError("out_channels must match the out_channels of the input module.")
 
-        self.sum_dim = 2
-
     @property
     def feature_to_scope(self) -> np.ndarray:
         return self.inputs.feature_to_scope
@@ -93,6 +91,9 @@ class RepetitionMixingLayer(Sum):
 
         return weights, out_channels, num_repetitions
 
+    def _get_sum_dim(self) -> int:
+        return 2
+
     def _get_weights_shape(self) -> tuple[int, int, int]:
         return (
             self.in_shape.features,
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index 3cd49cb..d30f771 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -106,7 +106,7 @@ class Sum(Module):
         else:
             self.inputs = inputs
 
-        self.sum_dim = 1
+        self.sum_dim = self._get_sum_dim()
         self.scope = self.inputs.scope
 
         # ========== 5. SHAPE COMPUTATION (early, so shapes can be reused below) ==========
@@ -177,6 +177,10 @@ class Sum(Module):
             self.out_shape.repetitions,
         )
 
+    def _get_sum_dim(self) -> int:
+        """Dimension of the weights which is mixed over and along which they are normalized."""
+        return 1
+
     def _initialize_weights(self, weights: Tensor | None) -> Tensor:
         if weights is None:
             weights = torch.rand(self.weights_shape) + 1e-08
-- 
2.43.0


From a8e335d8ceb44eb13171f59dbc4cd7eb414fd497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:00 +0000
Subject: [PATCH 69/72] fix: ProdConv sampling with padding always undoes the
 padding shift

---
 spflow/modules/conv/prod_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/modules/conv/prod_conv.py b/spflow/modules/conv/prod_conv.py
index 4db215d..6454315 100644
--- a/spflow/modules/conv/prod_conv.py
+++ b/spflow/modules/conv/prod_conv.py
@@ -274,7 +274,7 @@ class ProdConv(Module):
                 )
 
             # Handle explicit padding case: trim padded spatial positions to input size.
-            if upsampled_features > in_features:
+            if upsampled_features > in_features or self.padding_h > 0 or self.padding_w > 0:
                 covered_h = self._output_h * self.kernel_size_h
                 covered_w = self._output_w * self.kernel_size_w
                 if self.padding_h == 0 and self.padding_w == 0:
-- 
2.43.0


From 97c150390d05952d2d06a3bd5fd2427ac9bf0726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:02 +0000
Subject: [PATCH 70/72] fix: fused layers keep their weights when
 marginalisation removes no feature

---
 spflow/modules/einsum/einsum_layer.py | 6 +++++-
 spflow/modules/einsum/linsum_layer.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 8ce5b0c..84f7e36 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -685,11 +685,15 @@ class EinsumLayer(Module):
                 return left_marg
             else:
                 # Both still exist - create new EinsumLayer with marginalized children
-                return EinsumLayer(
+                marg_layer = EinsumLayer(
                     inputs=[left_marg, right_marg],
                     out_channels=self.out_shape.channels,
                     num_repetitions=self.out_shape.repetitions,
                 )
+                # No feature was removed: the weights still belong to the same (left, right) pairs
+                if marg_layer.weights_shape == self.weights_shape:
+                    marg_layer.log_weights = self.log_weights.detach()
+                return marg_layer
         else:
             # Single input - marginalize the underlying input
             marg_input = self.inputs.inputs.marginalize(marg_rvs, prune=prune, cache=cache)
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index dad5db4..ca0c37f 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -536,11 +536,15 @@ class LinsumLayer(Module):
                 return left_marg
             else:
                 # Both still exist - create new LinsumLayer with marginalized children
-                return LinsumLayer(
+                marg_layer = LinsumLayer(
                     inputs=[left_marg, right_marg],
                     out_channels=self.out_shape.channels,
                     num_repetitions=self.out_shape.repetitions,
                 )
+                # No feature was removed: the weights still belong to the same (left, right) pairs
+                if marg_layer.weights_shape == self.weights_shape:
+                    marg_layer.log_weights = self.log_weights.detach()
+                return marg_layer
         else:
             # Single input - marginalize the underlying input
             marg_input = self.inputs.inputs.marginalize(marg_rvs, prune=prune, cache=cache)
-- 
2.43.0


From 91986185c2c1dba33e80b026aca463ef281c7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:29 +0000
Subject: [PATCH 71/72] fix: the mode of a histogram lies in its densest bin

---
 spflow/modules/leaves/histogram.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/leaves/histogram.py b/spflow/modules/leaves/histogram.py
index b3b65fc..a0faf2e 100644
--- a/spflow/modules/leaves/histogram.py
+++ b/spflow/modules/leaves/histogram.py
@@ -69,13 +69,13 @@ class HistogramDist:
     def _bin_densities(self) -> Tensor:
         widths = self._bin_widths
         probs = self.probs
-        densities = probs / rearrange(widths, "b -> 1 1 1 b")
+        densities = probs / rearrange(widths.to(device=probs.device, dtype=probs.dtype), "b -> 1 1 1 b")
         return densities
 
     @property
     def mode(self) -> Tensor:
-        """Return mode as bin midpoint of the maximum-probability bin."""
-        max_idx = torch.argmax(self.probs, dim=-1)  # (F, C, R)
+        """Return mode as bin midpoint of the maximum-density bin."""
+        max_idx = torch.argmax(self._bin_densities, dim=-1)  # (F, C, R)
         mids = self._bin_midpoints.to(device=max_idx.device, dtype=self._logits.dtype)  # (B,)
         return mids[max_idx]  # (F, C, R)
 
-- 
2.43.0


From 4e471089d07367b9961d1e1605365d40a7fa2ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:32 +0000
Subject: [PATCH 72/72] fix: shared leaf parameters with further axes are not
 mistaken for per-sample ones

---
 spflow/modules/leaves/leaf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index ca7b963..94d6528 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -822,7 +822,10 @@ class LeafModule(Module, ABC):
         num_channels = self.out_shape.channels
         num_repetitions = self.out_shape.repetitions
 
-        if param.dim() >= 4 and param.shape[0] == n_active and param.shape[1] == num_features:
+        # Only conditional leaves have parameters per sample; the leading axes of shared parameters such as
+        # (F, C, R, K) may coincide with (N_active, F)
+        per_sample = self.is_conditional and param.dim() >= 4
+        if per_sample and param.shape[0] == n_active and param.shape[1] == num_features:
             routed = param
         elif param.shape[0] == num_features:
             if param.dim() == 3:
-- 
2.43.0

