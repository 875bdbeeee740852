From 8a147aeef0e6259109df112538241ef0b409f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 01/55] fix: SO3/SE3 log of a half turn whose two largest
 diagonal entries tie

The major column was left at 0 when entries 1 and 2 of the diagonal were
equal, so the log of e.g. a half turn about (0, 1, 1) was a half turn about x.
---
 torchlie/torchlie/functional/so3_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/functional/so3_impl.py b/torchlie/torchlie/functional/so3_impl.py
index 538af86..64d3cf0 100644
--- a/torchlie/torchlie/functional/so3_impl.py
+++ b/torchlie/torchlie/functional/so3_impl.py
@@ -411,7 +411,7 @@ def _log_impl_helper(group: torch.Tensor):
     ddiag = torch.diagonal(group, dim1=-1, dim2=-2)
     # Find the index of major columns and diagonals
     major = torch.logical_and(
-        ddiag[..., 1] > ddiag[..., 0], ddiag[..., 1] > ddiag[..., 2]
+        ddiag[..., 1] > ddiag[..., 0], ddiag[..., 1] >= ddiag[..., 2]
     ) + 2 * torch.logical_and(
         ddiag[..., 2] > ddiag[..., 0], ddiag[..., 2] > ddiag[..., 1]
     )
-- 
2.43.0


From 94fc4b4e7bc6d282cd57f02329611eea14ea23c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 02/55] fix: SE2 log of an exact half turn is NaN

At (cos, sin) = (-1, 0) the code evaluated 0 * (pi / 0).
---
 theseus/geometry/se2.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 8b26a85..2c5839d 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -174,13 +174,17 @@ class SE2(LieGroup):
             "se2", "near_zero", theta.dtype
         )
         non_zero = torch.ones(1, dtype=self.dtype, device=self.device)
-        sine_nz = torch.where(small_theta, non_zero, sine)
-        half_theta_by_tan_half_theta = (
+        # For obtuse angles use the form that is regular at theta = +-pi
+        obtuse = cosine < 0
+        sine_nz = torch.where(small_theta | obtuse, non_zero, sine)
+        half_theta = 0.5 * theta
+        half_theta_by_tan_half_theta = torch.where(
+            obtuse,
+            half_theta * sine / torch.where(obtuse, 1 - cosine, non_zero),
             0.5
             * (1 + cosine)
-            * torch.where(small_theta, 1 + sine**2 / 6, theta / sine_nz)
+            * torch.where(small_theta, 1 + sine**2 / 6, theta / sine_nz),
         )
-        half_theta = 0.5 * theta
 
         # Compute the translation
         ux = half_theta_by_tan_half_theta * self[:, 0] + half_theta * self[:, 1]
-- 
2.43.0


From d4663fc0c394b83424939f008381b850f4a0d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 03/55] fix: SE2 exp Jacobian for small angles

The series of (theta - sin(theta)) / theta^2 starts at theta / 6, not theta.
---
 theseus/geometry/se2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 2c5839d..cef556a 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -276,7 +276,7 @@ class SE2(LieGroup):
             SE2._check_jacobians_list(jacobians)
             theta2_nz = torch.where(small_theta, non_zero, theta2)
             theta_minus_sine_by_theta2 = torch.where(
-                small_theta, theta - theta3 / 120, (theta - sine) / theta2_nz
+                small_theta, theta / 6 - theta3 / 120, (theta - sine) / theta2_nz
             )
             cosine_minus_one_by_theta2 = torch.where(
                 small_theta, -0.5 + theta2 / 24, (cosine - 1) / theta2_nz
-- 
2.43.0


From 74d13febfa75e195792186bb7ab254aa9f70ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 04/55] fix: torchlie functional jexp/jlog/jinv raise
 AttributeError (module.name)

---
 torchlie/torchlie/functional/lie_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/functional/lie_group.py b/torchlie/torchlie/functional/lie_group.py
index 0ed28d4..e544f4e 100644
--- a/torchlie/torchlie/functional/lie_group.py
+++ b/torchlie/torchlie/functional/lie_group.py
@@ -156,7 +156,7 @@ def UnaryOperatorFactory(
 
     def jop(input: torch.Tensor) -> Tuple[List[torch.Tensor], torch.Tensor]:
         _check_jacobians_supported(
-            jop_autograd_fn, module.name, op_name, is_kwarg=False
+            jop_autograd_fn, module.NAME, op_name, is_kwarg=False
         )
         return jop_autograd_fn(input)
 
-- 
2.43.0


From fe9f91fc3cbd7b90a9ed3e5ea801ea8c33b3ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 05/55] fix: LieGroupTensor.add_ recurses forever outside the
 tangent context

---
 theseus/geometry/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/utils.py b/theseus/geometry/utils.py
index c9504de..fec1a9d 100644
--- a/theseus/geometry/utils.py
+++ b/theseus/geometry/utils.py
@@ -73,7 +73,7 @@ class LieGroupTensor(torch.Tensor):
             grad = group.project(update)
             self.set_(group.retract(alpha * grad).tensor)
         else:
-            self.add_(update, alpha=alpha)
+            super().add_(update, alpha=alpha)
 
         return self
 
-- 
2.43.0


From 73a906ef65201af9cdecea97b2e0253bedef1fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 06/55] fix: sign of the small-angle series of the SE3 log
 Jacobian

---
 torchlie/torchlie/functional/se3_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index 7c51ac8..d9fc7df 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -425,7 +425,7 @@ def _jlog_impl_helper(
     theta4_nz = theta2_nz**2
     c = torch.where(
         d_near_zero,
-        -1 / 360.0 - theta2 / 7560.0,
+        1 / 360.0 + theta2 / 7560.0,
         -(2 * two_cosine_minus_two_nz + theta * sine + theta2)
         / (theta4_nz * two_cosine_minus_two_nz),
     )
-- 
2.43.0


From ceaa42285ca22b56c3e12d7ae1921865ecef33bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 07/55] fix: GPCostWeight with one Qc_inv and a batch of dt

---
 theseus/embodied/motionmodel/double_integrator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index cbd93a5..35059ad 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -126,10 +126,11 @@ class GPCostWeight(CostWeight):
         self.register_aux_vars(["Qc_inv", "dt"])
 
     def is_zero(self) -> torch.Tensor:
-        return torch.zeros(self.Qc_inv.shape[0]).bool()
+        return torch.zeros(max(self.Qc_inv.shape[0], self.dt.shape[0])).bool()
 
     def _compute_cost_weight(self) -> torch.Tensor:
-        batch_size, dof, _ = self.Qc_inv.shape
+        dof = self.Qc_inv.shape[1]
+        batch_size = max(self.Qc_inv.shape[0], self.dt.shape[0])
         cost_weight = torch.empty(
             batch_size,
             2 * dof,
-- 
2.43.0


From 6be6d4b054570f78091d27856201adfd2af8e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:18 +0000
Subject: [PATCH 08/55] fix: flatten_dims robust costs with one loss radius per
 batch element

---
 theseus/core/robust_cost_function.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 8198fcb..fa15605 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -87,12 +87,12 @@ class RobustCostFunction(CostFunction):
     def weighted_error(self) -> torch.Tensor:
         weighted_error = self.cost_function.weighted_error()
         if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
+            # each dimension is its own error term, with its batch row's radius
+            error_loss = self._evaluate_loss(weighted_error**2)
+            return (error_loss + RobustCostFunction._EPS).sqrt()
         squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
         error_loss = self._evaluate_loss(squared_norm)
 
-        if self.flatten_dims:
-            return (error_loss.reshape(-1, self.dim()) + RobustCostFunction._EPS).sqrt()
         # The return value is a hacky way to make it so that
         # ||weighted_error||^2 = error_loss
         # By doing this we avoid having to change the objective's error computation
@@ -117,21 +117,15 @@ class RobustCostFunction(CostFunction):
             weighted_jacobians,
             weighted_error,
         ) = self.cost_function.weighted_jacobians_error()
-        if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
-            for i, wj in enumerate(weighted_jacobians):
-                weighted_jacobians[i] = wj.view(-1, 1, wj.shape[2])
-        squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
+        squared_norm = weighted_error**2
+        if not self.flatten_dims:
+            squared_norm = torch.sum(squared_norm, dim=1, keepdim=True)
         rescale = (self._linearize(squared_norm) + RobustCostFunction._EPS).sqrt()
 
         rescaled_jacobians = [
-            rescale.view(-1, 1, 1) * jacobian for jacobian in weighted_jacobians
+            rescale.unsqueeze(2) * jacobian for jacobian in weighted_jacobians
         ]
         rescaled_error = rescale * weighted_error
-        if self.flatten_dims:
-            return [
-                rj.reshape(-1, self.dim(), rj.shape[2]) for rj in rescaled_jacobians
-            ], rescaled_error.reshape(-1, self.dim())
         return rescaled_jacobians, rescaled_error
 
     def dim(self) -> int:
-- 
2.43.0


From 04f435d9b28f794edf6bc105563c7a8d0693a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 09/55] fix: a rejected ManifoldGaussian.update no longer
 changes the mean

---
 theseus/optimizer/manifold_gaussian.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/theseus/optimizer/manifold_gaussian.py b/theseus/optimizer/manifold_gaussian.py
index 8cf1d98..7bf733b 100644
--- a/theseus/optimizer/manifold_gaussian.py
+++ b/theseus/optimizer/manifold_gaussian.py
@@ -81,9 +81,8 @@ class ManifoldGaussian:
                 f"length to original mean sequence. Given: {len(mean)}. "
                 f"Expected: {len(self.mean)}"
             )
-        for i in range(len(self.mean)):
-            self.mean[i].update(mean[i])
-
+        # check the precision before touching the mean, so that a rejected update
+        # leaves the gaussian as it was
         expected_shape = torch.Size([mean[0].shape[0], self.dof, self.dof])
         if precision.shape != expected_shape:
             raise ValueError(
@@ -104,6 +103,14 @@ class ManifoldGaussian:
         if not torch.allclose(precision, precision.transpose(1, 2)):
             raise ValueError("Tried to update precision with non-symmetric matrix.")
 
+        old_tensors = [var.tensor for var in self.mean]
+        try:
+            for i in range(len(self.mean)):
+                self.mean[i].update(mean[i])
+        except Exception:
+            for var, tensor in zip(self.mean, old_tensors):
+                var.tensor = tensor
+            raise
         self.precision = precision
 
 
-- 
2.43.0


From c07f50a174848373b03bc302790a377f2d4cc73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 10/55] fix: AutoDiffCostFunction restores its temporary
 variables when the error function raises

---
 theseus/core/cost_function.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 29482aa..b22df4f 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -183,9 +183,11 @@ class AutogradMode(Enum):
 @contextlib.contextmanager
 def _tmp_tensors(vars: Sequence[Variable]):
     tensors = [v.tensor for v in vars]
-    yield
-    for v, tensor in zip(vars, tensors):
-        v.update(tensor)
+    try:
+        yield
+    finally:
+        for v, tensor in zip(vars, tensors):
+            v.update(tensor)
 
 
 # The error function is assumed to receive variables in the format
-- 
2.43.0


From a380f9475a22fbdcd97775515d035df20bd88bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 11/55] fix: dense and looped AutoDiffCostFunction Jacobians
 with mixed batch sizes

---
 theseus/core/cost_function.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index b22df4f..c37d4a2 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -361,12 +361,19 @@ class AutoDiffCostFunction(CostFunction):
                 )
         elif self._autograd_mode == AutogradMode.LOOP_BATCH:
             jacobians_raw_loop: List[Tuple[torch.Tensor, ...]] = []
-            for n in range(optim_vars[0].shape[0]):
+            for n in range(err.shape[0]):
                 for i, aux_var in enumerate(aux_vars):
-                    self._tmp_aux_vars_for_loop[i].update(aux_var.tensor[n : n + 1])
+                    self._tmp_aux_vars_for_loop[i].update(
+                        aux_var.tensor[n : n + 1]
+                        if aux_var.shape[0] > 1
+                        else aux_var.tensor
+                    )
 
                 jacobians_n = self._compute_autograd_jacobian(
-                    tuple(v.tensor[n : n + 1] for v in optim_vars),
+                    tuple(
+                        v.tensor[n : n + 1] if v.shape[0] > 1 else v.tensor
+                        for v in optim_vars
+                    ),
                     self._make_jac_fn(
                         self._tmp_optim_vars_for_loop, self._tmp_aux_vars_for_loop
                     ),
@@ -381,8 +388,10 @@ class AutoDiffCostFunction(CostFunction):
                 for k in range(len(optim_vars))
             )
         else:
+            # variables with a single batch element are broadcast
+            batch_size = err.shape[0]
             jacobians_raw = self._compute_autograd_jacobian(
-                tuple(v.tensor for v in optim_vars),
+                tuple(v.tensor.expand(batch_size, *v.shape[1:]) for v in optim_vars),
                 self._make_jac_fn(self._tmp_optim_vars, aux_vars),
             )
             aux_idx = torch.arange(err.shape[0])  # batch_size
-- 
2.43.0


From 204325738fee83dd7b498378341d0970b66bb75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 12/55] fix: AutoDiffCostFunction copies keep the autograd
 options

---
 theseus/core/cost_function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index c37d4a2..75cfb99 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -414,6 +414,10 @@ class AutoDiffCostFunction(CostFunction):
             aux_vars=[v.copy() for v in self.aux_vars],
             cost_weight=self.weight.copy(),
             name=new_name,
+            autograd_create_graph=self._autograd_create_graph,
+            autograd_strict=self._autograd_strict,
+            autograd_vectorize=self._autograd_vectorize,
+            autograd_strategy=self._autograd_strategy,
             autograd_mode=self._autograd_mode,
         )
 
-- 
2.43.0


From decb22dae5c626afee73df9a91c3b58015e334c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 13/55] fix: contexts restore their settings when the body or
 entry raises

---
 theseus/core/variable.py            |  2 ++
 theseus/geometry/lie_group_check.py | 12 ++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index 40e64f1..f094a98 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -139,8 +139,10 @@ class masked_variables:
         self._mask = mask
 
     def __enter__(self) -> None:
+        # check everything first, so that a failure leaves no variable masked
         for v in self._vars:
             assert v.shape[0] == self._mask.shape[0]
+        for v in self._vars:
             v.update(v.tensor[self._mask])
 
     def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
diff --git a/theseus/geometry/lie_group_check.py b/theseus/geometry/lie_group_check.py
index 1305378..7f78fa8 100644
--- a/theseus/geometry/lie_group_check.py
+++ b/theseus/geometry/lie_group_check.py
@@ -50,8 +50,10 @@ def set_lie_group_check_enabled(
     """
     prev = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings)
-    yield
-    _LieGroupCheckContext.set_context(*prev)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(*prev)
 
 
 @contextmanager
@@ -94,5 +96,7 @@ def silence_internal_warnings():
     """
     mode, silent, prev_silence_internal_warnings = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings=True)
-    yield
-    _LieGroupCheckContext.set_context(mode, silent, prev_silence_internal_warnings)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(mode, silent, prev_silence_internal_warnings)
-- 
2.43.0


From c1aea2c7d484ca7603e6d08bb2b39f3428ab1c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:00 +0000
Subject: [PATCH 14/55] fix: Objective.add leaves no trace of a rejected or
 repeated cost function

---
 theseus/core/objective.py | 103 +++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 46 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 6b8121f..e39e4ff 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -173,26 +173,7 @@ class Objective:
             self_vars_of_this_type = self.aux_vars  # type: ignore
 
         for variable in function_vars:
-            # Check that variables have name and correct dtype
-            if variable.name is None:
-                raise ValueError(
-                    f"Variables added to an objective must be named, but "
-                    f"{function.name} has an unnamed variable."
-                )
-            if variable.dtype != self.dtype:
-                raise ValueError(
-                    f"Tried to add variable {variable.name} with dtype "
-                    f"{variable.dtype} but objective's dtype is {self.dtype}."
-                )
-            # Check that names are unique
-            if variable.name in self._all_variables:
-                if variable is not self._all_variables[variable.name]:
-                    raise ValueError(
-                        f"Two different variable objects with the "
-                        f"same name ({variable.name}) are not allowed "
-                        "in the same objective."
-                    )
-            else:
+            if variable.name not in self._all_variables:
                 self._all_variables[variable.name] = variable
                 assert variable not in self_var_to_fn_map
                 self_var_to_fn_map[variable] = []
@@ -207,6 +188,59 @@ class Objective:
             # add to list of functions connected to this variable
             self_var_to_fn_map[variable].append(function)
 
+    # Checks that all variables of a cost function and its weight can be added,
+    # without modifying anything, so that a rejected cost function leaves no trace.
+    def _check_function_variables(self, cost_function: CostFunction):
+        new_variables: Dict[str, Variable] = {}
+        for function in [cost_function, cost_function.weight]:
+            for variable in itertools.chain(function.optim_vars, function.aux_vars):
+                # Check that variables have name and correct dtype
+                if variable.name is None:
+                    raise ValueError(
+                        f"Variables added to an objective must be named, but "
+                        f"{function.name} has an unnamed variable."
+                    )
+                if variable.dtype != self.dtype:
+                    raise ValueError(
+                        f"Tried to add variable {variable.name} with dtype "
+                        f"{variable.dtype} but objective's dtype is {self.dtype}."
+                    )
+                # Check that names are unique
+                other = self._all_variables.get(variable.name, None)
+                if other is None:
+                    other = new_variables.setdefault(variable.name, variable)
+                if variable is not other:
+                    raise ValueError(
+                        f"Two different variable objects with the "
+                        f"same name ({variable.name}) are not allowed "
+                        "in the same objective."
+                    )
+
+        if self._allow_mixed_optim_aux_vars:
+            return
+        dual_var_err_msg = (
+            "Objective does not support a variable being both "
+            + "an optimization variable and an auxiliary variable."
+        )
+        optim_vars_names = [
+            var.name
+            for var in itertools.chain(
+                cost_function.optim_vars, cost_function.weight.optim_vars
+            )
+        ]
+        aux_vars_names = [
+            var.name
+            for var in itertools.chain(
+                cost_function.aux_vars, cost_function.weight.aux_vars
+            )
+        ]
+        for optim_name in optim_vars_names:
+            if self.has_aux_var(optim_name) or optim_name in aux_vars_names:
+                raise ValueError(dual_var_err_msg)
+        for aux_name in aux_vars_names:
+            if self.has_optim_var(aux_name) or aux_name in self.cost_weight_optim_vars:
+                raise ValueError(dual_var_err_msg)
+
     def add(self, cost_function: CostFunction):
         """Adds a cost function to the objective.
 
@@ -248,9 +282,10 @@ class Objective:
                     "This cost function has already been added to the objective, "
                     "nothing to be done."
                 )
-        else:
-            self.cost_functions[cost_function.name] = cost_function
+                return
 
+        self._check_function_variables(cost_function)
+        self.cost_functions[cost_function.name] = cost_function
         self.current_version += 1
         # ----- Book-keeping for the cost function ------- #
         # adds information about the optimization variables in this cost function
@@ -285,30 +320,6 @@ class Objective:
 
         self.cost_functions_for_weights[cost_function.weight].append(cost_function)
 
-        optim_vars_names = [
-            var.name
-            for var in itertools.chain(
-                cost_function.optim_vars, cost_function.weight.optim_vars
-            )
-        ]
-        aux_vars_names = [
-            var.name
-            for var in itertools.chain(
-                cost_function.aux_vars, cost_function.weight.aux_vars
-            )
-        ]
-        if not self._allow_mixed_optim_aux_vars:
-            dual_var_err_msg = (
-                "Objective does not support a variable being both "
-                + "an optimization variable and an auxiliary variable."
-            )
-            for optim_name in optim_vars_names:
-                if self.has_aux_var(optim_name):
-                    raise ValueError(dual_var_err_msg)
-            for aux_name in aux_vars_names:
-                if self.has_optim_var(aux_name):
-                    raise ValueError(dual_var_err_msg)
-
     def get_cost_function(self, name: str) -> CostFunction:
         """Returns a reference to the cost function with the given name.
 
-- 
2.43.0


From fea9f372be4e2876ff1f573e71465a8e05458a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:00 +0000
Subject: [PATCH 15/55] fix: erasing keeps variables that are still used with
 the other role

---
 theseus/core/objective.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index e39e4ff..277b4e1 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -421,9 +421,14 @@ class Objective:
             del self_var_to_fn_map[variable][cost_fn_idx]
             # if the variable has no other functions, remove it also
             if not self_var_to_fn_map[variable]:
-                del self._all_variables[variable.name]
                 del self_var_to_fn_map[variable]
                 del self_vars_of_this_type[variable.name]
+                # it can still be used with the other role if mixing is allowed
+                if (
+                    variable not in self.functions_for_optim_vars
+                    and variable not in self.functions_for_aux_vars
+                ):
+                    del self._all_variables[variable.name]
 
     def erase(self, name: str):
         """Removes a cost function from the objective given its name
-- 
2.43.0


From 245a21e3db20bdd6c03032214c0424990e318f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 16/55] fix: Objective.error with temporary inputs restores
 auxiliary variables too

---
 theseus/core/objective.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 277b4e1..66596bf 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -600,14 +600,25 @@ class Objective:
                 concatenation of all cost functions error vectors. The order corresponds
                 to the order in which cost functions were added to the objective.
         """
-        old_tensors = {}
+        if input_tensors is not None and not also_update:
+            old_tensors = {
+                name: self._all_variables[name].tensor
+                for name in input_tensors
+                if name in self._all_variables
+            }
+            try:
+                # Vectorization is not updated, because the input tensors are
+                # not a persistent update.
+                self.update(input_tensors=input_tensors, _update_vectorization=False)
+                return self.error()
+            finally:
+                # This reverts back to the old tensors, also if the evaluation failed
+                for name, tensor in old_tensors.items():
+                    self._all_variables[name].update(tensor)
+                self._resolve_batch_size()
+
         if input_tensors is not None:
-            if not also_update:
-                for var in self.optim_vars:
-                    old_tensors[var] = self.optim_vars[var].tensor
-            # Update vectorization only if the input tensors will be used for a
-            # persistent update.
-            self.update(input_tensors=input_tensors, _update_vectorization=also_update)
+            self.update(input_tensors=input_tensors)
 
         # Current behavior when vectorization is on, is to always compute the error.
         # One could potentially optimize by only recompute when `input_tensors`` is
@@ -619,13 +630,6 @@ class Objective:
         error_vector = torch.cat(
             [cf.weighted_error() for cf in self._get_error_iter()], dim=1
         )
-
-        if input_tensors is not None and not also_update:
-            # This line reverts back to the old tensors if a persistent update wasn't
-            # required (i.e., `also_update is False`).
-            # In this case, we pass _update_vectorization=False because
-            # vectorization wasn't updated in the first call to `update()`.
-            self.update(old_tensors, _update_vectorization=False)
         return error_vector
 
     def error_metric(
-- 
2.43.0


From f71483a9435791d0f78652c453da972452ee8c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 17/55] fix: Objective.error broadcasts cost functions with
 batch size 1

---
 theseus/core/objective.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 66596bf..ea8df32 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -627,10 +627,10 @@ class Objective:
         # so we are currently avoiding this optimization. Optimizers also compute error
         # by passing `input_tensors`, so for optimizers the current version should be
         # good enough.
-        error_vector = torch.cat(
-            [cf.weighted_error() for cf in self._get_error_iter()], dim=1
-        )
-        return error_vector
+        errors = [cf.weighted_error() for cf in self._get_error_iter()]
+        # some cost functions might only depend on variables with batch size 1
+        batch_size = max((err.shape[0] for err in errors), default=1)
+        return torch.cat([err.expand(batch_size, -1) for err in errors], dim=1)
 
     def error_metric(
         self,
-- 
2.43.0


From 203e57512a48ed1aec362ce38e1ef15b25ba85de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:52 +0000
Subject: [PATCH 18/55] fix: Objective.copy keeps variables shared by a cost
 function and its own weight

---
 theseus/core/objective.py | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index ea8df32..7da7436 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -669,7 +669,9 @@ class Objective:
                 connectivity structure, and error metric.
         """
         new_objective = Objective(
-            dtype=self.dtype, error_metric_fn=self._error_metric_fn
+            dtype=self.dtype,
+            error_metric_fn=self._error_metric_fn,
+            __allow_mixed_optim_aux_vars__=self._allow_mixed_optim_aux_vars,
         )
 
         # First copy all individual cost weights
@@ -692,29 +694,17 @@ class Objective:
 
         # Handle case where a variable is copied in 2+ cost functions or cost weights,
         # since only a single copy should be maintained by objective
+        new_variables: Dict[str, Variable] = {}
         for cost_function in new_cost_functions:
-            # CostFunction
-            for i, var in enumerate(cost_function.optim_vars):
-                if new_objective.has_optim_var(var.name):
-                    cost_function.set_optim_var_at(
-                        i, new_objective.optim_vars[var.name]
-                    )
-            for i, aux_var in enumerate(cost_function.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
-                    )
-            # CostWeight
-            for i, var in enumerate(cost_function.weight.optim_vars):
-                if var.name in new_objective.cost_weight_optim_vars:
-                    cost_function.weight.set_optim_var_at(
-                        i, new_objective.cost_weight_optim_vars[var.name]
-                    )
-            for i, aux_var in enumerate(cost_function.weight.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.weight.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
-                    )
+            for function in [cost_function, cost_function.weight]:
+                for i, var in enumerate(function.optim_vars):
+                    new_var = new_variables.setdefault(var.name, var)
+                    if new_var is not var:
+                        function.set_optim_var_at(i, new_var)
+                for i, aux_var in enumerate(function.aux_vars):
+                    new_aux_var = new_variables.setdefault(aux_var.name, aux_var)
+                    if new_aux_var is not aux_var:
+                        function.set_aux_var_at(i, new_aux_var)
             new_objective.add(cost_function)
         return new_objective
 
-- 
2.43.0


From 3015cd5cdd5661890922a3573eafb4017abbfc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:52 +0000
Subject: [PATCH 19/55] fix: copies of robust cost functions and GPMotionModel

---
 theseus/core/robust_cost_function.py              | 13 +++++++++++++
 theseus/embodied/motionmodel/double_integrator.py | 10 +++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index fa15605..67cf9a0 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -7,6 +7,8 @@ from typing import List, Optional, Tuple, Type
 
 import torch
 
+from theseus.geometry.manifold import Manifold
+
 from .cost_function import CostFunction
 from .cost_weight import CostWeight
 from .robust_loss import GNCRobustLoss, RobustLoss
@@ -140,6 +142,17 @@ class RobustCostFunction(CostFunction):
             flatten_dims=self.flatten_dims,
         )
 
+    # The variables of the underlying cost function are also this function's variables
+    # (registered first, in the same order), so both must be replaced together
+    def set_optim_var_at(self, index: int, variable: Manifold):
+        super().set_optim_var_at(index, variable)
+        self.cost_function.set_optim_var_at(index, variable)
+
+    def set_aux_var_at(self, index: int, variable: Variable):
+        super().set_aux_var_at(index, variable)
+        if index < self.cost_function.num_aux_vars():
+            self.cost_function.set_aux_var_at(index, variable)
+
     def _evaluate_loss(self, squared_norm: torch.Tensor) -> torch.Tensor:
         return self.loss.evaluate(squared_norm, self.log_loss_radius.tensor)
 
diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index 35059ad..b4d436b 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -200,4 +200,12 @@ class GPMotionModel(DoubleIntegrator):
         super().__init__(pose1, vel1, pose2, vel2, dt, cost_weight, name=name)
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "GPMotionModel":
-        return cast(GPMotionModel, super()._copy_impl(new_name=new_name))
+        return GPMotionModel(
+            self.pose1.copy(),
+            self.vel1.copy(),
+            self.pose2.copy(),
+            self.vel2.copy(),
+            self.dt.copy(),
+            cast(GPCostWeight, self.weight.copy()),
+            name=new_name,
+        )
-- 
2.43.0


From ba71e1ba368c0a693fd36bb3c4d971b48aaa3540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 20/55] fix: vectorized Objective.error keeps the order of the
 cost functions

---
 theseus/core/vectorizer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 880732e..c395fc6 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -391,11 +391,16 @@ class Vectorize:
         else:
             # If not full vectorization, just copy the containers so that we don't override the
             # permanent cache. The results will be returned in these temp containers.
+            # They are returned in the order of the objective's cost functions.
+            tmp_wrappers = {
+                wrapper: _CostFunctionWrapper(wrapper.cost_fn)
+                for wrapper in self._cost_fn_wrappers
+            }
             schema_dict = {
-                schema: [_CostFunctionWrapper(cf.cost_fn) for cf in cf_list]
-                for schema, cf_list in self._schema_dict.items()
+                schema: [tmp_wrappers[wrapper] for wrapper in wrapper_list]
+                for schema, wrapper_list in self._schema_dict.items()
             }
-            ret = [cf for cf_list in schema_dict.values() for cf in cf_list]
+            ret = list(tmp_wrappers.values())
         for schema, cost_fn_wrappers in schema_dict.items():
             if len(cost_fn_wrappers) == 1:
                 self._handle_singleton_wrapper(schema, cost_fn_wrappers, mode)
-- 
2.43.0


From a4d8b6ad198e3a32c60f6feff1fd42623f3c7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 21/55] fix: vectorized retract broadcasts variables with batch
 size 1

---
 theseus/core/vectorizer.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index c395fc6..4372f70 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -428,16 +428,16 @@ class Vectorize:
         ] = {}
 
         start_idx = 0
-        batch_size = -1
+        ordering = list(ordering)
+        # Variables (or delta) with batch size 1 are broadcast
+        batch_size = max([delta.shape[0]] + [var.shape[0] for var in ordering])
         # Create var info by looping variables in the given order
         # All variables of the same type get grouped together, and their deltas saved
         for var in ordering:
-            if batch_size == -1:
-                batch_size = var.shape[0]
-            else:
-                assert batch_size == var.shape[0]
-
-            delta_slice = delta[:, start_idx : start_idx + var.dof()]
+            assert var.shape[0] in (1, batch_size)
+            delta_slice = Vectorize._expand(
+                delta[:, start_idx : start_idx + var.dof()], batch_size
+            )
             start_idx += var.dof()
             var_type = (var.__class__, var.dof())
             if var_type not in var_info:
@@ -451,7 +451,9 @@ class Vectorize:
             # Get the vectorized tensor that holds all the current variable tensors.
             # The resulting shape is (N * b, M), b is batch size, N is the number of
             # variables in the group, and M is the data shape for this class
-            vectorized_tensor = torch.cat([v.tensor for v in var_list], dim=0)
+            vectorized_tensor = torch.cat(
+                [Vectorize._expand(v.tensor, batch_size) for v in var_list], dim=0
+            )
             assert (
                 vectorized_tensor.shape
                 == (n_vars * batch_size,) + vectorized_tensor.shape[1:]
-- 
2.43.0


From 3780426fb4f68e9cef8acf8836917078e537dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 22/55] fix: vectorization follows added and erased cost
 functions and new batch sizes

---
 theseus/core/objective.py  | 16 +++++++++++---
 theseus/core/vectorizer.py | 45 ++++++++++++++++++++++++--------------
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 7da7436..7d6ecda 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -143,6 +143,9 @@ class Objective:
 
         self._last_vectorization_has_grad = False
 
+        # Version of the objective for which vectorization was last updated
+        self._last_vectorization_version = -1
+
         self._vectorized = False
 
         # Computes an aggregation function for the error vector derived from costs
@@ -827,6 +830,10 @@ class Objective:
             self._num_updates_variables = num_updates
             needs = True
 
+        if self._last_vectorization_version != self.current_version:
+            self._last_vectorization_version = self.current_version
+            needs = True
+
         if torch.is_grad_enabled():
             if not self._last_vectorization_has_grad:
                 needs = True
@@ -834,9 +841,12 @@ class Objective:
 
     def update_vectorization_if_needed(self):
         if self.vectorized and self._vectorization_needs_update():
-            if self._batch_size is None:
-                self._resolve_batch_size()
-            self._vectorization_run()
+            try:
+                self._vectorization_run()
+            except BaseException:
+                # so that a failed update is not taken for a finished one
+                self._num_updates_variables = {}
+                raise
             self._last_vectorization_has_grad = torch.is_grad_enabled()
 
     # iterates over cost functions
diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 4372f70..464a27e 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -122,8 +122,31 @@ class Vectorize:
             _CostFunctionSchema, List[_CostFunctionWrapper]
         ] = defaultdict(list)
 
+        self._objective = objective
+        self._empty_cuda_cache = empty_cuda_cache
+        self._init_vectorized_cost_fns()
+
+        # `self._vectorize()` will compute an error vector for each schema,
+        # then populate the wrappers with their appropriate weighted error slice.
+        # Replacing `obj._cost_functions_iterable` allows to recover these when
+        # iterating the Objective.
+        objective._enable_vectorization(
+            self._cost_fn_wrappers,
+            self._vectorize,
+            self._to,
+            self._vectorized_retract_optim_vars,
+            self._get_vectorized_error_iter,
+            self,
+        )
+
+    # Called again if cost functions are added to (or erased from) the objective
+    def _init_vectorized_cost_fns(self):
+        self._objective_version = self._objective.current_version
+        self._cost_fn_wrappers.clear()
+        self._schema_dict.clear()
+
         # Create wrappers for all cost functions and also get their schemas
-        for cost_fn in objective.cost_functions.values():
+        for cost_fn in self._objective.cost_functions.values():
             wrapper = _CostFunctionWrapper(cost_fn)
             self._cost_fn_wrappers.append(wrapper)
             schema = _get_cost_function_schema(cost_fn)
@@ -143,22 +166,6 @@ class Vectorize:
         # Dict[_CostFunctionSchema, List[str]]
         self._var_names = self._get_var_names()
 
-        # `self._vectorize()` will compute an error vector for each schema,
-        # then populate the wrappers with their appropriate weighted error slice.
-        # Replacing `obj._cost_functions_iterable` allows to recover these when
-        # iterating the Objective.
-        objective._enable_vectorization(
-            self._cost_fn_wrappers,
-            self._vectorize,
-            self._to,
-            self._vectorized_retract_optim_vars,
-            self._get_vectorized_error_iter,
-            self,
-        )
-
-        self._objective = objective
-        self._empty_cuda_cache = empty_cuda_cache
-
     # Returns a dictionary which maps every schema to information about its shared
     # variables.
     # The information is in the form of a list of strings for all variables in the
@@ -382,6 +389,10 @@ class Vectorize:
     def _vectorize(
         self, mode: _VectorizationMode = _VectorizationMode.FULL
     ) -> Iterable[_CostFunctionWrapper]:
+        if self._objective_version != self._objective.current_version:
+            self._init_vectorized_cost_fns()
+        # variables might have been updated without going through the objective
+        self._objective._resolve_batch_size()
         if mode == _VectorizationMode.FULL:
             # In full mode we compute error and jacobians and update the vectorizer's
             # permanent cache.
-- 
2.43.0


From 9ce303443c9580f1826db1e64c226b44eb3826cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:26 +0000
Subject: [PATCH 23/55] fix: item assignment and to() count as variable updates
 for vectorization

---
 theseus/core/variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index f094a98..d360a5f 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -80,6 +80,7 @@ class Variable:
     # calls to() on the internal tensors
     def to(self, *args, **kwargs):
         self.tensor = self.tensor.to(*args, **kwargs)
+        self._num_updates += 1
 
     @property
     def shape(self) -> torch.Size:
@@ -102,6 +103,7 @@ class Variable:
 
     def __setitem__(self, item, value):
         self.tensor[item] = value
+        self._num_updates += 1
 
 
 # If value is a variable, this returns the same variable
-- 
2.43.0


From e0de5fe7e29e838cc0704729b1b67171b073c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 24/55] fix: copies of cost functions keep variables shared
 with their weight

---
 theseus/core/cost_function.py    | 12 ++++++++++--
 theseus/core/theseus_function.py | 19 ++++++++++++++++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 75cfb99..7fa9dd9 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -7,7 +7,7 @@ import abc
 import contextlib
 from enum import Enum
 from itertools import chain
-from typing import Callable, List, Optional, Sequence, Tuple, Union, cast
+from typing import Callable, Dict, List, Optional, Sequence, Tuple, Union, cast
 
 import torch
 import torch.autograd.functional as autogradF
@@ -130,10 +130,18 @@ class CostFunction(TheseusFunction, abc.ABC):
     def copy(
         self, new_name: Optional[str] = None, keep_variable_names: bool = False
     ) -> "CostFunction":
-        return cast(
+        new_fn = cast(
             CostFunction,
             super().copy(new_name=new_name, keep_variable_names=keep_variable_names),
         )
+        # The weight might use some of the cost function's variables
+        if new_fn.weight is not self.weight:
+            copies: Dict[Variable, Variable] = {
+                **dict(zip(self.optim_vars, new_fn.optim_vars)),
+                **dict(zip(self.aux_vars, new_fn.aux_vars)),
+            }
+            self.weight._link_copied_vars(new_fn.weight, copies)
+        return new_fn
 
     # calls to() on the cost weight, variables and any internal tensors
     def to(self, *args, **kwargs):
diff --git a/theseus/core/theseus_function.py b/theseus/core/theseus_function.py
index 17a629a..64d10e4 100644
--- a/theseus/core/theseus_function.py
+++ b/theseus/core/theseus_function.py
@@ -5,7 +5,7 @@
 
 import abc
 from itertools import count
-from typing import Generator, Iterable, List, Optional, Sequence
+from typing import Dict, Generator, Iterable, List, Optional, Sequence, cast
 
 from theseus.geometry import Manifold
 
@@ -107,8 +107,25 @@ class TheseusFunction(abc.ABC):
                 "property."
             )
 
+        self._link_copied_vars(new_fn, {})
         return new_fn
 
+    # A variable used more than once must also be a single variable in the copy.
+    # `copies` maps the original variables to the copies known so far.
+    def _link_copied_vars(
+        self, new_fn: "TheseusFunction", copies: Dict[Variable, Variable]
+    ):
+        for i, (var, new_var) in enumerate(
+            zip(list(self.optim_vars), list(new_fn.optim_vars))
+        ):
+            if copies.setdefault(var, new_var) is not new_var:
+                new_fn.set_optim_var_at(i, cast(Manifold, copies[var]))
+        for i, (aux, new_aux) in enumerate(
+            zip(list(self.aux_vars), list(new_fn.aux_vars))
+        ):
+            if copies.setdefault(aux, new_aux) is not new_aux:
+                new_fn.set_aux_var_at(i, copies[aux])
+
     def __deepcopy__(self, memo):
         if id(self) in memo:
             return memo[id(self)]
-- 
2.43.0


From 5d3d690ed13ace69932d18b92c3cd2b26d5a3aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 25/55] fix: motion models and collision costs with mixed batch
 sizes

---
 theseus/embodied/collision/collision.py             |  2 ++
 theseus/embodied/collision/eff_obj_contact.py       |  5 +++++
 theseus/embodied/collision/signed_distance_field.py |  6 ++++++
 theseus/embodied/motionmodel/double_integrator.py   | 13 +++++++++----
 theseus/embodied/motionmodel/misc.py                | 12 +++++-------
 .../motionmodel/quasi_static_pushing_planar.py      |  5 +++--
 6 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/theseus/embodied/collision/collision.py b/theseus/embodied/collision/collision.py
index dd2c923..e375fc4 100644
--- a/theseus/embodied/collision/collision.py
+++ b/theseus/embodied/collision/collision.py
@@ -69,6 +69,8 @@ class Collision2D(CostFunction):
         distances, jacobian = self._compute_distances_and_jacobians()
         error = self._error_from_distances(distances)
         faraway_idx = distances > self.cost_eps.tensor
+        if jacobian.shape[0] != faraway_idx.shape[0]:
+            jacobian = jacobian.repeat(faraway_idx.shape[0], 1, 1)
         jacobian[faraway_idx] = 0.0
         return [-jacobian], error
 
diff --git a/theseus/embodied/collision/eff_obj_contact.py b/theseus/embodied/collision/eff_obj_contact.py
index e1f7b98..ee595c3 100644
--- a/theseus/embodied/collision/eff_obj_contact.py
+++ b/theseus/embodied/collision/eff_obj_contact.py
@@ -99,6 +99,11 @@ class EffectorObjectContactPlanar(CostFunction):
             )
         else:
             lt_idx = distances < self.eff_radius.tensor
+            if distances.shape[0] != lt_idx.shape[0]:
+                jacobians = (
+                    jacobians[0].repeat(lt_idx.shape[0], 1, 1),
+                    jacobians[1].repeat(lt_idx.shape[0], 1, 1),
+                )
             jacobians[0][lt_idx] *= -1.0
             jacobians[1][lt_idx] *= -1.0
         return [jacobians[0], jacobians[1]], error
diff --git a/theseus/embodied/collision/signed_distance_field.py b/theseus/embodied/collision/signed_distance_field.py
index b49c8a0..22aed3e 100644
--- a/theseus/embodied/collision/signed_distance_field.py
+++ b/theseus/embodied/collision/signed_distance_field.py
@@ -194,6 +194,12 @@ class SignedDistanceField2D:
         self, points: torch.Tensor
     ) -> Tuple[torch.Tensor, torch.Tensor]:
         rows, cols, out_of_bounds_idx = self.convert_points_to_cell(points)
+        if rows.shape[0] == 1 and self.sdf_data.shape[0] > 1:
+            # the same points, for every field
+            batch_size = self.sdf_data.shape[0]
+            rows = rows.expand(batch_size, -1)
+            cols = cols.expand(batch_size, -1)
+            out_of_bounds_idx = out_of_bounds_idx.expand(batch_size, -1)
 
         lr = torch.floor(rows)
         lc = torch.floor(cols)
diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index b4d436b..8a2ce7c 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -53,14 +53,21 @@ class DoubleIntegrator(CostFunction):
     def _error_from_pose_diff(self, pose_diff: torch.Tensor) -> torch.Tensor:
         pose_diff_err = pose_diff - self.dt.tensor.view(-1, 1) * self.vel1.tensor
         vel_diff = self.vel2.tensor - self.vel1.tensor
-        return torch.cat([pose_diff_err, vel_diff], dim=1)
+        batch_size = max(pose_diff_err.shape[0], vel_diff.shape[0])
+        return torch.cat(
+            [pose_diff_err.expand(batch_size, -1), vel_diff.expand(batch_size, -1)],
+            dim=1,
+        )
 
     def error(self) -> torch.Tensor:
         return self._error_from_pose_diff(self._new_pose_diff())
 
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
+        Jlocal: List[torch.Tensor] = []
+        error = self._error_from_pose_diff(self._new_pose_diff(Jlocal))
+
         # Pre-allocate jacobian tensors
-        batch_size = self.pose1.shape[0]
+        batch_size = error.shape[0]
         dof = self.pose1.dof()
         dtype = self.pose1.dtype
         device = self.pose1.device
@@ -69,8 +76,6 @@ class DoubleIntegrator(CostFunction):
         Jerr_pose2 = torch.zeros_like(Jerr_pose1)
         Jerr_vel2 = torch.zeros_like(Jerr_pose1)
 
-        Jlocal: List[torch.Tensor] = []
-        error = self._error_from_pose_diff(self._new_pose_diff(Jlocal))
         Jerr_pose1[:, :dof, :] = Jlocal[0]
         identity = torch.eye(dof, dtype=dtype, device=device).repeat(batch_size, 1, 1)
         Jerr_vel1[:, :dof, :] = -self.dt.tensor.view(-1, 1, 1) * identity
diff --git a/theseus/embodied/motionmodel/misc.py b/theseus/embodied/motionmodel/misc.py
index 925815e..bd515f5 100644
--- a/theseus/embodied/motionmodel/misc.py
+++ b/theseus/embodied/motionmodel/misc.py
@@ -76,11 +76,9 @@ class HingeCost(CostFunction):
 
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
         error, below_idx, above_idx = self._compute_error()
-        J = self.vector.tensor.new_zeros(
-            self.vector.shape[0], self.vector.dof(), self.vector.dof()
-        )
-        J[below_idx.diag_embed()] = -1.0
-        J[above_idx.diag_embed()] = 1.0
+        J = error.new_zeros(error.shape[0], self.vector.dof(), self.vector.dof())
+        J[below_idx.expand_as(error).diag_embed()] = -1.0
+        J[above_idx.expand_as(error).diag_embed()] = 1.0
         return [J], error
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "HingeCost":
@@ -162,8 +160,8 @@ class Nonholonomic(CostFunction):
         cos: torch.Tensor,
         sin: torch.Tensor,
     ) -> Tuple[torch.Tensor, torch.Tensor]:
-        Jpose = self.vel.tensor.new_zeros(self.vel.shape[0], 1, 3)
-        Jvel = self.vel.tensor.new_zeros(self.vel.shape[0], 1, 3)
+        Jpose = error.new_zeros(error.shape[0], 1, 3)
+        Jvel = error.new_zeros(error.shape[0], 1, 3)
         Jpose[:, 0, 2] = -(self.vel[:, 1] * sin + self.vel[:, 0] * cos)
         Jvel[:, 0, 0] = -sin
         Jvel[:, 0, 1] = cos
diff --git a/theseus/embodied/motionmodel/quasi_static_pushing_planar.py b/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
index 2b9e822..c642239 100644
--- a/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
+++ b/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
@@ -41,7 +41,8 @@ class QuasiStaticPushingPlanar(CostFunction):
         self.register_aux_vars(["c_square"])
 
     def _get_tensor_info(self) -> Tuple[int, torch.device, torch.dtype]:
-        return self.obj1.shape[0], self.obj1.device, self.obj1.dtype
+        batch_size = max(v.shape[0] for v in [*self.optim_vars, *self.aux_vars])
+        return batch_size, self.obj1.device, self.obj1.dtype
 
     # See Eqs. 3-7 in Zhou et al.
     def _compute_D(
@@ -235,7 +236,7 @@ class QuasiStaticPushingPlanar(CostFunction):
             get_jacobians=get_jacobians,
         )
 
-        error = torch.bmm(D, V.unsqueeze(2)).squeeze(2) - Vp
+        error = torch.matmul(D, V.unsqueeze(2)).squeeze(2) - Vp
 
         if not get_jacobians:
             return error, None
-- 
2.43.0


From 3381b6ce569b4825c540d22e34afd321ec2b72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 26/55] fix: vectorization of cost functions that use a
 variable twice or clash with its names

---
 theseus/core/vectorizer.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 464a27e..a67d17b 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -34,8 +34,17 @@ def _get_cost_function_schema(cost_function: CostFunction) -> _CostFunctionSchem
     def _varinfo(var) -> str:
         return f"{_fullname(var)}{tuple(var.shape[1:])}"
 
+    # Cost functions that use a variable more than once can only be vectorized with
+    # those that do so in the same way, because their copies preserve this.
+    def _repetitions() -> str:
+        all_vars = list(cost_function.optim_vars) + list(cost_function.aux_vars)
+        first_idx = [[v is u for u in all_vars].index(True) for v in all_vars]
+        if first_idx == list(range(len(all_vars))):
+            return ""
+        return f"__{first_idx}"
+
     return (
-        (_fullname(cost_function),)
+        (_fullname(cost_function) + _repetitions(),)
         + tuple(_varinfo(v) for v in cost_function.optim_vars)
         + tuple(_varinfo(v) for v in cost_function.aux_vars)
         + (_fullname(cost_function.weight),)
@@ -70,10 +79,18 @@ class _CostFunctionWrapper(CostFunction):
             name = f"wrapper({cost_fn.name})"
         super().__init__(cost_fn.weight, name=name)
         self.cost_fn = cost_fn
-        self.register_vars(cost_fn.optim_vars, is_optim_vars=True)
-        self.register_vars(cost_fn.aux_vars, is_optim_vars=False)
         self._cached_error: Optional[torch.Tensor] = None
         self._cached_jacobians: Optional[List[torch.Tensor]] = None
+        # The variables' names cannot be used as attributes if they clash with existing
+        # ones, or if the cost function uses a variable more than once.
+        for i, var in enumerate(cost_fn.optim_vars):
+            attr = f"_optim_var_{i}" if hasattr(self, var.name) else var.name
+            setattr(self, attr, var)
+            self.register_optim_var(attr)
+        for i, aux_var in enumerate(cost_fn.aux_vars):
+            attr = f"_aux_var_{i}" if hasattr(self, aux_var.name) else aux_var.name
+            setattr(self, attr, aux_var)
+            self.register_aux_var(attr)
 
     def error(self) -> torch.Tensor:
         return self.cost_fn.error()
-- 
2.43.0


From a7c4538f0be4b04b0bf41345acc7402badd076c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:36 +0000
Subject: [PATCH 27/55] fix: masked evaluation of cost functions that use a
 variable twice

---
 theseus/core/variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index d360a5f..a2ad6fe 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -136,8 +136,9 @@ def as_variable(
 class masked_variables:
     def __init__(self, vars: List[Variable], mask: torch.Tensor) -> None:
         assert mask.dtype == torch.bool and mask.ndim == 1
-        self._vars = vars
-        self._original_tensors = [v.tensor for v in vars]
+        # a variable that appears more than once is masked only once
+        self._vars = list({id(v): v for v in vars}.values())
+        self._original_tensors = [v.tensor for v in self._vars]
         self._mask = mask
 
     def __enter__(self) -> None:
-- 
2.43.0


From 996b8385fb702a48da4b96ba691f68465101f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 28/55] fix: removing a variable from an ordering reindexes the
 others

---
 theseus/optimizer/variable_ordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/variable_ordering.py b/theseus/optimizer/variable_ordering.py
index 5156dcd..4b2dd45 100644
--- a/theseus/optimizer/variable_ordering.py
+++ b/theseus/optimizer/variable_ordering.py
@@ -49,7 +49,7 @@ class VariableOrdering:
 
     def remove(self, var: Variable):
         self._var_order.remove(var)
-        del self._var_name_to_index[var.name]
+        self._var_name_to_index = {v.name: i for i, v in enumerate(self._var_order)}
 
     def extend(self, variables: Sequence[Variable]):
         for var in variables:
-- 
2.43.0


From 08263cfa428c49c155630732b67d8900cebbf5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 29/55] fix: linearization of cost functions that use a
 variable more than once

---
 theseus/optimizer/dense_linearization.py  |  3 ++-
 theseus/optimizer/sparse_linearization.py | 18 +++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/theseus/optimizer/dense_linearization.py b/theseus/optimizer/dense_linearization.py
index 33caada..81f3e7e 100644
--- a/theseus/optimizer/dense_linearization.py
+++ b/theseus/optimizer/dense_linearization.py
@@ -50,7 +50,8 @@ class DenseLinearization(Linearization):
                 num_cols = var_jacobian.shape[2]
                 row_slice = slice(err_row_idx, err_row_idx + num_rows)
                 col_slice = slice(var_start_col, var_start_col + num_cols)
-                self.A[:, row_slice, col_slice] = var_jacobian
+                # blocks of a variable that appears more than once add up
+                self.A[:, row_slice, col_slice] += var_jacobian
 
             self.b[:, row_slice] = -error
             err_row_idx += cost_function.dim()
diff --git a/theseus/optimizer/sparse_linearization.py b/theseus/optimizer/sparse_linearization.py
index 021d434..de4ca53 100644
--- a/theseus/optimizer/sparse_linearization.py
+++ b/theseus/optimizer/sparse_linearization.py
@@ -3,7 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-from typing import List, Optional
+from typing import Dict, List, Optional
 
 import numpy as np
 import torch
@@ -42,12 +42,18 @@ class SparseLinearization(Linearization):
         for _, cost_function in enumerate(self.objective._get_jacobians_iter()):
             num_rows = cost_function.dim()
             col_slices_indices = []
+            first_seen: Dict[int, int] = {}  # order index -> index in cost function
+            repeated = {}  # a variable that appears more than once has one block
             for var_idx_in_cost_function, variable in enumerate(
                 cost_function.optim_vars
             ):
                 var_idx_in_order = self.ordering.index_of(
                     cost_function.optim_var_at(var_idx_in_cost_function).name
                 )
+                if var_idx_in_order in first_seen:
+                    repeated[var_idx_in_cost_function] = first_seen[var_idx_in_order]
+                    continue
+                first_seen[var_idx_in_order] = var_idx_in_cost_function
                 var_start_col = self.var_start_cols[var_idx_in_order]
                 num_cols = variable.dof()
                 col_slice = slice(var_start_col, var_start_col + num_cols)
@@ -59,9 +65,11 @@ class SparseLinearization(Linearization):
             sorted_block_pointers = np.cumsum([0] + sorted_block_sizes)[:-1]
             sorted_indices = np.array([i for _, i in col_slices_indices])
             block_pointers: np.ndarray = np.ndarray(
-                (len(col_slices_indices),), dtype=int
+                (len(col_slices_indices) + len(repeated),), dtype=int
             )
             block_pointers[sorted_indices] = sorted_block_pointers
+            for i, first in repeated.items():
+                block_pointers[i] = block_pointers[first]
             cost_function_block_pointers.append(block_pointers)
 
             cost_function_row_block_starts.append(len(A_col_ind))
@@ -104,12 +112,12 @@ class SparseLinearization(Linearization):
         self._Atb = None
         self._AtA_diag = None
 
-        # those will be fully overwritten, no need to zero:
-        self.A_val = torch.empty(
+        self.A_val = torch.zeros(
             size=(self.objective.batch_size, len(self.A_col_ind)),
             device=self.objective.device,
             dtype=self.objective.dtype,
         )
+        # this will be fully overwritten, no need to zero:
         self.b = torch.empty(
             size=(self.objective.batch_size, self.num_rows),
             device=self.objective.device,
@@ -134,7 +142,7 @@ class SparseLinearization(Linearization):
                 # the proper block is written, using the precomputed index in `block_pointers`
                 num_cols = var_jacobian.shape[2]
                 pointer = block_pointers[var_idx_in_cost_function]
-                block[:, :, pointer : pointer + num_cols] = var_jacobian
+                block[:, :, pointer : pointer + num_cols] += var_jacobian
 
             self.b[:, row_slice] = -error
             err_row_idx += cost_function.dim()
-- 
2.43.0


From e432b72d39f1ef348933693d543f88ae5868f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 30/55] fix: sparse diagonal scaling keeps the dtype of the
 Jacobian

---
 theseus/optimizer/sparse_linearization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/sparse_linearization.py b/theseus/optimizer/sparse_linearization.py
index de4ca53..35b2115 100644
--- a/theseus/optimizer/sparse_linearization.py
+++ b/theseus/optimizer/sparse_linearization.py
@@ -197,7 +197,7 @@ class SparseLinearization(Linearization):
         assert v.shape[1] == self.num_cols
         if self._AtA_diag is None:
             A_val = self.A_val
-            self._AtA_diag = torch.zeros(A_val.shape[0], self.num_cols)
+            self._AtA_diag = A_val.new_zeros(A_val.shape[0], self.num_cols)
             for row in range(self.num_rows):
                 start = self.A_row_ptr[row]
                 end = self.A_row_ptr[row + 1]
-- 
2.43.0


From 93872026a538aab55e30da15a67f5208fae1f95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:20 +0000
Subject: [PATCH 31/55] fix: checked dense solve with damping and dtypes other
 than float32

---
 theseus/optimizer/linear/dense_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/linear/dense_solver.py b/theseus/optimizer/linear/dense_solver.py
index e5e58e5..8bbb725 100644
--- a/theseus/optimizer/linear/dense_solver.py
+++ b/theseus/optimizer/linear/dense_solver.py
@@ -92,7 +92,7 @@ class DenseSolver(LinearSolver, abc.ABC):
             AtA = self.linearization.AtA
             Atb = self.linearization.Atb
             with torch.no_grad():
-                output = torch.zeros(AtA.shape[0], AtA.shape[1]).to(AtA.device)
+                output = AtA.new_zeros(AtA.shape[0], AtA.shape[1])
                 _, _, infos = torch.lu(AtA, get_infos=True)
                 good_idx = infos.bool().logical_not()
                 if not good_idx.all():
@@ -101,6 +101,8 @@ class DenseSolver(LinearSolver, abc.ABC):
                         "to all 0 for all singular matrices.",
                         RuntimeWarning,
                     )
+            if isinstance(damping, torch.Tensor) and damping.numel() > 1:
+                damping = damping.view(-1)[good_idx]  # one value per batch element
             AtA = AtA[good_idx]
             Atb = Atb[good_idx]
             solution = self._apply_damping_and_solve(
-- 
2.43.0


From 95d6b2a30c23719124c47d606bd40360c2027e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:20 +0000
Subject: [PATCH 32/55] fix: sparse solve and its gradient in the dtype of the
 problem

---
 theseus/optimizer/autograd/cholmod_sparse_autograd.py | 8 ++++----
 theseus/optimizer/autograd/common.py                  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/theseus/optimizer/autograd/cholmod_sparse_autograd.py b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
index 9c575df..0969379 100644
--- a/theseus/optimizer/autograd/cholmod_sparse_autograd.py
+++ b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
@@ -48,7 +48,7 @@ class CholmodSolveFunction(torch.autograd.Function):
 
             # solve
             Atb_i = At_i @ b_cpu[i, :]
-            x_cpu[i, :] = torch.Tensor(cholesky_decomposition(Atb_i))
+            x_cpu[i, :] = torch.as_tensor(cholesky_decomposition(Atb_i))
             cholesky_decompositions.append(cholesky_decomposition)
 
         ctx.b_cpu = b_cpu
@@ -118,13 +118,13 @@ class CholmodSolveFunction(torch.autograd.Function):
         grad_output_cpu = grad_output.cpu()
 
         for i in range(batch_size):
-            H[i, :] = torch.Tensor(
+            H[i, :] = torch.as_tensor(
                 ctx.cholesky_decompositions[i](grad_output_cpu[i, :])
             )
 
             A_i = ctx.sparse_structure.csr_straight(ctx.At_val_cpu[i, :])
-            AH[i, :] = torch.Tensor(A_i @ H[i, :])
-            b_Ax[i, :] -= torch.Tensor(A_i @ ctx.x_cpu[i, :])
+            AH[i, :] = torch.as_tensor(A_i @ H[i, :])
+            b_Ax[i, :] -= torch.as_tensor(A_i @ ctx.x_cpu[i, :])
 
         # now we fill values of a matrix with structure identical to A with
         # selected entries from the difference of tensor products:
diff --git a/theseus/optimizer/autograd/common.py b/theseus/optimizer/autograd/common.py
index c75b203..9a9ce34 100644
--- a/theseus/optimizer/autograd/common.py
+++ b/theseus/optimizer/autograd/common.py
@@ -23,7 +23,7 @@ def compute_A_grad(
     detach_hessian: bool,
 ):
     A_grad = torch.empty(
-        size=(batch_size, len(A_col_ind)), device=x.device
+        size=(batch_size, len(A_col_ind)), device=x.device, dtype=H.dtype
     )  # return value, A's grad
     for r in range(len(A_row_ptr) - 1):
         start, end = A_row_ptr[r], A_row_ptr[r + 1]
-- 
2.43.0


From fbb06ec61dc2a7f9dcf447678eeafc14dd53c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:49 +0000
Subject: [PATCH 33/55] fix: last error and iteration count of the converging
 iteration

---
 theseus/optimizer/nonlinear/dcem.py                    | 2 +-
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index abce1e6..dbf66ae 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -190,9 +190,9 @@ class DCEM(NonlinearOptimizer):
                     np.array(converged_indices.cpu().numpy())
                 ] = NonlinearOptimizerStatus.CONVERGED
 
+                info.last_err = err
                 if converged_indices.all():
                     break  # nothing else will happen at this point
-                info.last_err = err
 
                 if end_iter_callback is not None:
                     end_iter_callback(self, info, mu, it_)
diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index a823f4a..3afd731 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -199,9 +199,10 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 info.status[
                     converged_indices.cpu().numpy()
                 ] = NonlinearOptimizerStatus.CONVERGED
+                info.last_err = err
                 if converged_indices.all():
+                    iters_done += 1
                     break  # nothing else will happen at this point
-                info.last_err = err
 
                 if end_iter_callback is not None:
                     end_iter_callback(self, info, delta, it_)
-- 
2.43.0


From 3e838ffbd2fb94c76bf92859838f8387484b41bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 34/55] fix: a rejected step is not convergence of its batch
 element

---
 .../nonlinear/nonlinear_least_squares.py      | 21 +++++++++++--------
 .../nonlinear/nonlinear_optimizer.py          | 19 ++++++++++++++---
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index 3afd731..491ef71 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -170,7 +170,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
 
             # For now, step size is combined with delta. If we add more sophisticated
             # line search, will probably need to pass it separately, or compute inside.
-            err, all_rejected = self._step(
+            err, reject_indices = self._step(
                 delta * steps_tensor,
                 info.last_err,
                 converged_indices,
@@ -178,24 +178,27 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 delta_forced_to_gn=_last_implicit_diff_step,
                 **kwargs,
             )  # err is shape (batch_size,)
-            if all_rejected:
+            if reject_indices is not None and reject_indices.all():
                 # The optimizer rejected all steps so just continue, otherwise convergence
                 # check will stop prematurely. However, we put a max on this to guarantee
                 # this terminates
                 all_reject_attempts += 1
                 if all_reject_attempts < NonlinearOptimizer._MAX_ALL_REJECT_ATTEMPTS:
                     continue
+                reject_indices = None
             all_reject_attempts = 0
 
             # check for convergence if at least one step was accepted
             with torch.no_grad():
-                self._update_info(info, it_, err, converged_indices)
+                self._update_info(info, it_, err, converged_indices, reject_indices)
                 if verbose:
                     print(
                         f"Nonlinear optimizer. Iteration: {it_+1}. "
                         f"Error: {err.mean().item()}"
                     )
-                converged_indices = self._check_convergence(err, info.last_err)
+                converged_indices = converged_indices.logical_or(
+                    self._check_convergence(err, info.last_err, reject_indices)
+                )
                 info.status[
                     converged_indices.cpu().numpy()
                 ] = NonlinearOptimizerStatus.CONVERGED
@@ -329,8 +332,8 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
     # variables.
     # Batch indices indicated by `converged_indices` mask are ignored
     # unless `force_update = True`.
-    # Returns the total error tensor after the update and a boolean indicating
-    # if all steps were rejected.
+    # Returns the total error tensor after the update and a boolean mask indicating
+    # which steps were rejected (or None, if the optimizer doesn't reject steps).
     #
     # `previous_err` refes to the squared norm of the
     # error vector, as returned by self.objective.error_metric()
@@ -344,7 +347,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
         force_update: bool,
         delta_forced_to_gn: bool,
         **kwargs,
-    ) -> Tuple[torch.Tensor, bool]:
+    ) -> Tuple[torch.Tensor, Optional[torch.Tensor]]:
         tensor_dict, err = self._compute_retracted_tensors_and_error(
             delta, converged_indices, force_update
         )
@@ -357,13 +360,13 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
             reject_indices = self._complete_step(delta, err, previous_err, **kwargs)
 
         if reject_indices is not None and reject_indices.all():
-            return previous_err, True
+            return previous_err, reject_indices
 
         self.objective.update(tensor_dict, batch_ignore_mask=reject_indices)
         if reject_indices is not None and reject_indices.any():
             # Some steps were rejected so the error computed above is not accurate
             err = self.objective.error_metric()
-        return err, False
+        return err, reject_indices
 
     # Resets any internal state needed by the optimizer for a new optimization
     # problem. Optimizer loop will pass all optimizer kwargs to this method.
diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 755421f..47cfba5 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -107,16 +107,26 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         self.params.update(kwargs)
 
     @torch.no_grad()
-    def _check_convergence(self, err: torch.Tensor, last_err: torch.Tensor):
+    def _check_convergence(
+        self,
+        err: torch.Tensor,
+        last_err: torch.Tensor,
+        reject_indices: Optional[torch.Tensor] = None,
+    ):
         if err.abs().mean() < self.params.abs_err_tolerance:
             return torch.ones_like(err).bool()
 
         err_change = last_err - err
         abs_err_change = err_change.abs()
         rel_err_change = (err_change / last_err).abs()
-        return (abs_err_change < self.params.abs_err_tolerance).logical_or(
+        converged_indices = (abs_err_change < self.params.abs_err_tolerance).logical_or(
             rel_err_change < self.params.rel_err_tolerance
         )
+        if reject_indices is not None:
+            # The error of a rejected step doesn't change, but this doesn't mean
+            # that the optimization has converged
+            converged_indices = converged_indices.logical_and(~reject_indices)
+        return converged_indices
 
     def _maybe_init_best_solution(
         self, do_init: bool = False
@@ -187,6 +197,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         current_iter: int,
         err: torch.Tensor,
         converged_indices: torch.Tensor,
+        reject_indices: Optional[torch.Tensor] = None,
     ):
         info.converged_iter += 1 - converged_indices.long()
         if info.err_history is not None:
@@ -207,7 +218,9 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
 
             info.best_err = torch.minimum(info.best_err, err)
 
-        converged_indices = self._check_convergence(err, info.last_err)
+        converged_indices = self._check_convergence(
+            err, info.last_err, reject_indices
+        )
         info.status[
             np.array(converged_indices.detach().cpu())
         ] = NonlinearOptimizerStatus.CONVERGED
-- 
2.43.0


From 8864a2758de5bf2221b18ed871ba56f08b7db057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 35/55] fix: merge last error, best iteration and failures of
 the two loops

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 47cfba5..59ef904 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -250,6 +250,9 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                     ..., info_idx
                 ] = grad_loop_info.state_history[var.name][..., grad_info_idx]
 
+        # The grad loop continues from the last values of the no grad loop
+        info.last_err = grad_loop_info.last_err
+
         # Merge best solution and best error
         if info.best_solution is not None:
             best_solution = {}
@@ -265,6 +268,11 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                     sol_no_grad,
                     sol_grad,
                 )
+            info.best_iter = torch.where(
+                best_err_grad < best_err_no_grad,
+                grad_loop_info.best_iter + num_no_grad_iters,
+                info.best_iter,
+            )
             info.best_solution = best_solution
             info.best_err = best_err
 
@@ -273,6 +281,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         assert np.all(
             (grad_loop_info.status[M] == NonlinearOptimizerStatus.MAX_ITERATIONS)
             | (grad_loop_info.status[M] == NonlinearOptimizerStatus.CONVERGED)
+            | (grad_loop_info.status[M] == NonlinearOptimizerStatus.FAIL)
         )
         info.status[M] = grad_loop_info.status[M]
         info.converged_iter[M] = (
-- 
2.43.0


From 1ac6bfc4a58a06a8acbe9ae181297c192e5e52b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 36/55] fix: error and state histories in the dtype of the
 problem

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 59ef904..53649ee 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -149,7 +149,11 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         best_err = last_err.clone() if track_best_solution else None
         if track_err_history:
             err_history = (
-                torch.ones(self.objective.batch_size, self.params.max_iterations + 1)
+                torch.ones(
+                    self.objective.batch_size,
+                    self.params.max_iterations + 1,
+                    dtype=last_err.dtype,
+                )
                 * math.inf
             )
             assert last_err.grad_fn is None
@@ -165,6 +169,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                         self.objective.batch_size,
                         *var.shape[1:],
                         self.params.max_iterations + 1,
+                        dtype=var.dtype,
                     )
                     * math.inf
                 )
-- 
2.43.0


From 000f7ba5e639690cc73afbe9f5120f04c6dc69f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 37/55] fix: adaptive ellipsoidal damping with sparse
 linearizations

---
 theseus/optimizer/nonlinear/levenberg_marquardt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/levenberg_marquardt.py b/theseus/optimizer/nonlinear/levenberg_marquardt.py
index ce1902a..226406c 100644
--- a/theseus/optimizer/nonlinear/levenberg_marquardt.py
+++ b/theseus/optimizer/nonlinear/levenberg_marquardt.py
@@ -184,7 +184,7 @@ class LevenbergMarquardt(NonlinearLeastSquares):
         assert isinstance(self._damping, torch.Tensor)
         damping = self._damping.view(-1, 1)
         if ellipsoidal_damping:
-            damping = linearization.diagonal_scaling(damping)
+            damping = linearization.diagonal_scaling(damping.expand_as(delta))
         # Deliberately using Atb before updating the variables, according to
         # the LM reference above
         den = (delta * (damping * delta + linearization.Atb.squeeze(2))).sum(dim=1) / 2
-- 
2.43.0


From 790b9dd781631fc53da434eaa000107bcb956966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:26 +0000
Subject: [PATCH 38/55] fix: dogleg step does not depend on the scale of the
 problem

---
 theseus/optimizer/nonlinear/dogleg.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dogleg.py b/theseus/optimizer/nonlinear/dogleg.py
index 2b47fc2..7473c32 100644
--- a/theseus/optimizer/nonlinear/dogleg.py
+++ b/theseus/optimizer/nonlinear/dogleg.py
@@ -16,7 +16,10 @@ from .trust_region import TrustRegion
 # See Nocedal and Wright, Numerical Optimization, pp. 73-77
 # https://www.csie.ntu.edu.tw/~r97002/temp/num_optimization.pdf
 class Dogleg(TrustRegion):
-    EPS = 1e-7
+    # Only used to avoid divisions by zero (and zero gradients of the square root).
+    # It's added to quantities that are relative to the trust region radius
+    # (or to squared gradients), so that it doesn't dominate in small scale problems.
+    EPS = 1e-14
 
     def __init__(
         self,
@@ -65,7 +68,7 @@ class Dogleg(TrustRegion):
         Adelta_sd = linearization.Av(delta_sd)
         Adelta_sd_norm_2 = TrustRegion._squared_norm(Adelta_sd)
         grad_norm_2 = TrustRegion._squared_norm(delta_sd)
-        cauchy_step_size = grad_norm_2 / (Adelta_sd_norm_2 + Dogleg.EPS)
+        cauchy_step_size = grad_norm_2 / (Adelta_sd_norm_2 + Dogleg.EPS**2)
         delta_c = delta_sd * cauchy_step_size
         delta_c_norm_2 = grad_norm_2 * (cauchy_step_size**2)
         delta_c_within_region_idx = delta_c_norm_2 <= trust_region_2
@@ -75,7 +78,7 @@ class Dogleg(TrustRegion):
             delta_dogleg = torch.where(
                 delta_c_within_region_idx,
                 delta_c,
-                delta_c * self._trust_region / (delta_c_norm_2 + Dogleg.EPS).sqrt(),
+                delta_c / (delta_c_norm_2 / trust_region_2 + Dogleg.EPS).sqrt(),
             )
         else:
             delta_dogleg = delta_c
@@ -86,10 +89,11 @@ class Dogleg(TrustRegion):
             # Need to solve a quadratic || sd + tau * (gn - sd)|| == tr**2
             # This can be written as
             # a * tau^2 + b * tau + c, with a, b, c given below
+            # (after dividing by the squared trust region radius)
             diff = delta_gn - delta_c
-            a = TrustRegion._squared_norm(diff)
-            b = (2 * delta_c * diff).sum(dim=1, keepdim=True)
-            c = delta_c_norm_2 - trust_region_2
+            a = TrustRegion._squared_norm(diff) / trust_region_2
+            b = (2 * delta_c * diff).sum(dim=1, keepdim=True) / trust_region_2
+            c = delta_c_norm_2 / trust_region_2 - 1.0
             disc = ((b**2) - 4 * a * c).clamp(Dogleg.EPS)
             # By taking min(tau, 1), this also covers the case when ||d_gn|| < TR
             tau = ((-b + disc.sqrt()) / (2 * a + Dogleg.EPS)).clamp(max=1.0)
-- 
2.43.0


From c41cc03ca4f99d97f7eb6c7bb332cc8e31893bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 39/55] fix: DLM gradients for inputs that share a tensor or
 depend on each other

---
 theseus/theseus_layer.py | 43 ++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 814f0a2..db8fe08 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -3,7 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-from typing import Any, Dict, List, Optional, Tuple
+from typing import Any, Dict, List, Optional, Sequence, Tuple
 
 import numpy as np
 import torch
@@ -213,17 +213,31 @@ class TheseusLayerDLMForward(torch.autograd.Function):
             ctx.epsilon = epsilon
 
             # Precompute and cache this.
+            leaves = TheseusLayerDLMForward._as_leaves(input_vals)
+            data = dict(zip(input_keys, leaves))
+            data.update(zip(objective.optim_vars.keys(), optim_tensors))
             with torch.enable_grad():
-                grad_sol = torch.autograd.grad(
-                    objective.error_metric().sum(),
-                    differentiable_tensors,
-                    allow_unused=True,
+                grad_sol = TheseusLayerDLMForward._grad(
+                    objective.error_metric(data, also_update=False), leaves
                 )
-            ctx.save_for_backward(
-                *input_vals, *grad_sol, *differentiable_tensors, *optim_tensors
-            )
+            ctx.save_for_backward(*input_vals, *grad_sol, *optim_tensors)
         return (*optim_tensors, info)
 
+    # Separate leaves for all inputs, so that each gets only its own partial
+    # derivative (autograd adds them up if inputs share tensors or depend on each other).
+    @staticmethod
+    def _as_leaves(tensors: Sequence[torch.Tensor]) -> List[torch.Tensor]:
+        return [t.detach().requires_grad_(t.requires_grad) for t in tensors]
+
+    @staticmethod
+    def _grad(
+        error_metric: torch.Tensor, leaves: Sequence[torch.Tensor]
+    ) -> Sequence[Optional[torch.Tensor]]:
+        inputs = [t for t in leaves if t.requires_grad]
+        if not error_metric.requires_grad:
+            return [None] * len(inputs)
+        return torch.autograd.grad(error_metric.sum(), inputs, allow_unused=True)
+
     @staticmethod
     @once_differentiable
     def backward(ctx, *grad_outputs):
@@ -231,8 +245,8 @@ class TheseusLayerDLMForward(torch.autograd.Function):
         saved_tensors = ctx.saved_tensors
         input_vals = saved_tensors[:n]
         grad_sol = saved_tensors[n : n + k]
-        differentiable_tensors = saved_tensors[n + k : n + k + k]
-        optim_tensors = saved_tensors[n + k + k :]
+        m = len(ctx.bwd_objective.optim_vars)
+        optim_tensors = saved_tensors[n + k : n + k + m]
         grad_outputs = grad_outputs[:-1]
 
         bwd_objective: Objective = ctx.bwd_objective
@@ -241,7 +255,8 @@ class TheseusLayerDLMForward(torch.autograd.Function):
         input_keys = ctx.input_keys
 
         # Update the optim vars to their solutions.
-        bwd_data = dict(zip(input_keys, input_vals))
+        leaves = TheseusLayerDLMForward._as_leaves(input_vals)
+        bwd_data = dict(zip(input_keys, leaves))
         for k, v in zip(bwd_objective.optim_vars.keys(), optim_tensors):
             bwd_data[k] = v.detach()
 
@@ -266,10 +281,8 @@ class TheseusLayerDLMForward(torch.autograd.Function):
 
         # Compute gradients.
         with torch.enable_grad():
-            grad_perturbed = torch.autograd.grad(
-                bwd_objective.error_metric().sum(),
-                differentiable_tensors,
-                allow_unused=True,
+            grad_perturbed = TheseusLayerDLMForward._grad(
+                bwd_objective.error_metric(), leaves
             )
 
         nones = [None] * (ctx.n * 2)
-- 
2.43.0


From b7a6fc9fd8301eb99f0aa3d066a301677b3f0698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 40/55] fix: DLM gradients use the current values of variables
 that are not inputs

---
 theseus/theseus_layer.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index db8fe08..f3c1a06 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -220,7 +220,17 @@ class TheseusLayerDLMForward(torch.autograd.Function):
                 grad_sol = TheseusLayerDLMForward._grad(
                     objective.error_metric(data, also_update=False), leaves
                 )
-            ctx.save_for_backward(*input_vals, *grad_sol, *optim_tensors)
+            # The backward objective is only updated during the backward pass, so
+            # the values of all other variables must be kept as well.
+            other_vars = {
+                name: var.tensor
+                for name, var in objective.aux_vars.items()
+                if name not in inputs
+            }
+            ctx.other_keys = tuple(other_vars.keys())
+            ctx.save_for_backward(
+                *input_vals, *grad_sol, *optim_tensors, *other_vars.values()
+            )
         return (*optim_tensors, info)
 
     # Separate leaves for all inputs, so that each gets only its own partial
@@ -247,6 +257,7 @@ class TheseusLayerDLMForward(torch.autograd.Function):
         grad_sol = saved_tensors[n : n + k]
         m = len(ctx.bwd_objective.optim_vars)
         optim_tensors = saved_tensors[n + k : n + k + m]
+        other_tensors = saved_tensors[n + k + m :]
         grad_outputs = grad_outputs[:-1]
 
         bwd_objective: Objective = ctx.bwd_objective
@@ -256,7 +267,8 @@ class TheseusLayerDLMForward(torch.autograd.Function):
 
         # Update the optim vars to their solutions.
         leaves = TheseusLayerDLMForward._as_leaves(input_vals)
-        bwd_data = dict(zip(input_keys, leaves))
+        bwd_data = dict(zip(ctx.other_keys, other_tensors))
+        bwd_data.update(zip(input_keys, leaves))
         for k, v in zip(bwd_objective.optim_vars.keys(), optim_tensors):
             bwd_data[k] = v.detach()
 
-- 
2.43.0


From 3f252188c20f82d2e05f190b5338fa0d87344990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 41/55] fix: DLM without input tensors

---
 theseus/theseus_layer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index f3c1a06..402e4ca 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -74,7 +74,9 @@ class TheseusLayer(nn.Module):
                 self._dlm_bwd_optimizer = _opt
 
             # Tensors cannot be passed inside containers, else we run into memory leaks.
-            input_keys, input_vals = zip(*input_tensors.items())
+            input_tensors = input_tensors or {}
+            input_keys = tuple(input_tensors.keys())
+            input_vals = tuple(input_tensors.values())
             differentiable_tensors = [t for t in input_vals if t.requires_grad]
 
             *vars, info = TheseusLayerDLMForward.apply(
-- 
2.43.0


From 5d33410f54f9b4a218e014853c4469e753829c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 42/55] fix: layers can be moved to another dtype or device
 after construction

---
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 2 ++
 theseus/theseus_layer.py                               | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index 491ef71..2289b59 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -307,6 +307,8 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
     # in the objective.
     def _update_tmp_optim_vars(self):
         for v_tmp, v_order in zip(self._tmp_optim_vars, self.ordering):
+            # the objective could have been moved with to()
+            v_tmp.to(dtype=v_order.dtype, device=v_order.device)
             v_tmp.update(v_order.tensor)
 
     def _compute_retracted_tensors_and_error(
diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 402e4ca..94f4bbd 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -140,6 +140,8 @@ class TheseusLayer(nn.Module):
     def to(self, *args, **kwargs) -> "TheseusLayer":
         super().to(*args, **kwargs)
         self.objective.to(*args, **kwargs)
+        if self._dlm_bwd_objective is not None:
+            self._dlm_bwd_objective.to(*args, **kwargs)
         return self
 
     @property
-- 
2.43.0


From ee30953de23185df6b3eece927cea2db9a596bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 43/55] fix: DLM epsilon in the precision of the problem

---
 theseus/theseus_layer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 94f4bbd..ffdd651 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -278,9 +278,9 @@ class TheseusLayerDLMForward(torch.autograd.Function):
 
         # Add in gradient values.
         grad_data = {
-            TheseusLayerDLMForward._DLM_EPSILON_STR: torch.tensor(epsilon)
-            .to(grad_outputs[0])
-            .reshape(1, 1)
+            TheseusLayerDLMForward._DLM_EPSILON_STR: grad_outputs[0].new_full(
+                (1, 1), epsilon
+            )
         }
         for i, name in enumerate(bwd_objective.optim_vars.keys()):
             grad_data[name + TheseusLayerDLMForward._GRAD_SUFFIX] = grad_outputs[i]
-- 
2.43.0


From d64a01412a28a696f7999dd4f24e059e948ec42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:50 +0000
Subject: [PATCH 44/55] fix: axis-aligned joint classes can be built and
 evaluated

---
 torchkin/torchkin/joint.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/torchkin/torchkin/joint.py b/torchkin/torchkin/joint.py
index 868bc55..2970028 100644
--- a/torchkin/torchkin/joint.py
+++ b/torchkin/torchkin/joint.py
@@ -287,9 +287,9 @@ class _RevoluteJointXYZImpl(_RevoluteJointImpl):
         info = _RevoluteJointXYZImpl.axis_info[self.axis_id]
         rot = angle.new_zeros(angle.shape[0], 3, 3)
         rot[:, info[0], info[0]] = 1
-        rot[:, info[1], info[1]] = angle.cos()
+        rot[:, info[1], info[1]] = angle.cos().squeeze(1)
         rot[:, info[2], info[2]] = rot[:, info[1], info[1]]
-        rot[:, info[2], info[1]] = angle.sin()
+        rot[:, info[2], info[1]] = angle.sin().squeeze(1)
         rot[:, info[1], info[2]] = -rot[:, info[2], info[1]]
 
         return rot
@@ -306,7 +306,7 @@ class RevoluteJointX(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 0, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 0, id, parent_link, child_link, origin, dtype, device)
 
 
 class RevoluteJointY(_RevoluteJointXYZImpl):
@@ -320,7 +320,7 @@ class RevoluteJointY(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 1, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 1, id, parent_link, child_link, origin, dtype, device)
 
 
 class RevoluteJointZ(_RevoluteJointXYZImpl):
@@ -334,7 +334,7 @@ class RevoluteJointZ(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 2, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 2, id, parent_link, child_link, origin, dtype, device)
 
 
 class _PrismaticJointImpl(Joint):
@@ -434,7 +434,7 @@ class _PrismaticJointXYZImpl(_PrismaticJointImpl):
 
     def _translation_impl(self, angle: torch.Tensor) -> torch.Tensor:
         trans = angle.new_zeros(angle.shape[0], 3)
-        trans[:, self.axis_id] = angle
+        trans[:, self.axis_id] = angle.squeeze(1)
         return trans
 
     def _relative_pose_impl(self, angle: torch.Tensor) -> torch.Tensor:
@@ -457,7 +457,7 @@ class PrismaticJointX(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 0, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 0, id, parent_link, child_link, origin, dtype, device)
 
 
 class PrismaticJointY(_PrismaticJointXYZImpl):
@@ -471,7 +471,7 @@ class PrismaticJointY(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 1, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 1, id, parent_link, child_link, origin, dtype, device)
 
 
 class PrismaticJointZ(_PrismaticJointXYZImpl):
@@ -485,4 +485,4 @@ class PrismaticJointZ(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 2, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 2, id, parent_link, child_link, origin, dtype, device)
-- 
2.43.0


From 41161268d6da8a7f788133b1b5c7d54876a38fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:50 +0000
Subject: [PATCH 45/55] fix: URDF joints without an axis element use the x axis

---
 torchkin/torchkin/robot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchkin/torchkin/robot.py b/torchkin/torchkin/robot.py
index a355930..c956445 100644
--- a/torchkin/torchkin/robot.py
+++ b/torchkin/torchkin/robot.py
@@ -101,7 +101,10 @@ class Robot(abc.ABC):
                         origin=origin,
                     )
                 else:
-                    axis = origin.new_tensor(urdf_joint.axis)
+                    # the URDF specification makes the x axis the default
+                    axis = origin.new_tensor(
+                        urdf_joint.axis if urdf_joint.axis is not None else [1, 0, 0]
+                    )
                     joint = joint_type(
                         urdf_joint.name,
                         axis,
-- 
2.43.0


From 68f25953f01365f00661a49fe8cf63626cbee81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:01 +0000
Subject: [PATCH 46/55] fix: robot models without an explicit list of links

---
 theseus/embodied/kinematics/kinematics_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/kinematics/kinematics_model.py b/theseus/embodied/kinematics/kinematics_model.py
index ab08077..8cdefe3 100644
--- a/theseus/embodied/kinematics/kinematics_model.py
+++ b/theseus/embodied/kinematics/kinematics_model.py
@@ -60,7 +60,11 @@ class UrdfRobotModel(KinematicsModel):
         self.fk, self.jfk_b, self.jfk_s = get_forward_kinematics_fns(
             self.robot, link_names
         )
-        self.link_names = link_names
+        self.link_names = (
+            link_names
+            if link_names is not None
+            else [link.name for link in self.robot.get_links()]
+        )
 
     def forward_kinematics(  # type: ignore
         self,
-- 
2.43.0


From a0faee7da7281bd252b7926d23a58740e17ae7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 47/55] fix: the product of LieTensors a * b composed them in
 the reverse order

---
 torchlie/torchlie/lie_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index edf45d4..5e518ce 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -374,7 +374,7 @@ class LieTensor(_LieTensorBase):
                 f"Incorrect argument for '*' operator. "
                 f"Expected LieTensor, but got {type(other)}"
             )
-        return type_cast(LieTensor, other).compose(self)
+        return self.compose(type_cast(LieTensor, other))
 
     def __matmul__(self, point: TensorType) -> torch.Tensor:
         if isinstance(point, LieTensor):
-- 
2.43.0


From e90decbc74f2df85ec02a0cb492b4963f8df82a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:56 +0000
Subject: [PATCH 48/55] fix: the gradient of normalize was wrong at rotations
 (repeated singular values)

---
 torchlie/torchlie/functional/so3_impl.py | 48 ++++++------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/torchlie/torchlie/functional/so3_impl.py b/torchlie/torchlie/functional/so3_impl.py
index 64d3cf0..6ef9594 100644
--- a/torchlie/torchlie/functional/so3_impl.py
+++ b/torchlie/torchlie/functional/so3_impl.py
@@ -1152,42 +1152,18 @@ def _normalize_backward_helper(
     sign: torch.Tensor,
     grad_output: torch.Tensor,
 ) -> torch.Tensor:
-    def _skew_symm(tensor: torch.Tensor) -> torch.Tensor:
-        return tensor - tensor.transpose(-1, -2)
-
-    size = u.shape[:-2]
-    ut = u.transpose(-1, -2)
-    vt = v.transpose(-1, -2)
-    grad_u: torch.Tensor = grad_output @ torch.cat(
-        (v[..., :2], v[..., 2:] @ sign), dim=-1
-    )
-    grad_v: torch.Tensor = grad_output.transpose(-1, -2) @ torch.cat(
-        (u[..., :2], u[..., 2:] @ sign), dim=-1
-    )
-    s_squared: torch.Tensor = s.pow(2)
-    F = s_squared.view(*size, 1, 3).expand(*size, 3, 3) - s_squared.view(
-        *size, 3, 1
-    ).expand(*size, 3, 3)
-    F = torch.where(F == 0, constants._INF, F)
-    F = F.pow(-1)
-
-    u_term: torch.Tensor = u @ (F * _skew_symm(ut @ grad_u))
-    # The next 3 lines are equivalent to u_term = torch.einsum("n...ij, n...j->n...ij", u_term, s).
-    # This implementation is compatible for vectorize=True in torch.autograd.functional.jacobian.
-    permuted_u_term_dim = permute_op_dim(u_term.dim(), 1, 1)
-    unpermuted_u_term_dim = unpermute_op_dim(u_term.dim(), 1, 1)
-    u_term = (u_term.permute(permuted_u_term_dim) * s).permute(unpermuted_u_term_dim)
-    u_term = u_term @ vt
-
-    v_term: torch.Tensor = (F * _skew_symm(vt @ grad_v)) @ vt
-    # The next 3 lines are equivalent to v_term = torch.einsum("n...i, n...ij->n...ij", s, v_term).
-    # This implementation is compatible for vectorize=True in torch.autograd.functional.jacobian.
-    permuted_v_term_dim = permute_op_dim(v_term.dim(), 1, 0)
-    unpermuted_v_term_dim = unpermute_op_dim(v_term.dim(), 1, 0)
-    v_term = (s * v_term.permute(permuted_v_term_dim)).permute(unpermuted_v_term_dim)
-    v_term = u @ v_term
-
-    return u_term + v_term
+    # The normalization is u @ v_signed^T, with v_signed flipping the last column of v
+    # when needed, and its derivative divides by sums of (signed) singular values. In
+    # contrast to the derivatives of u and v, it's well defined for repeated ones, as is
+    # the case for rotations.
+    sign = sign.sign()
+    v_signed = torch.cat((v[..., :2], v[..., 2:] * sign), dim=-1)
+    s_signed = torch.cat((s[..., :2], s[..., 2:] * sign[..., 0]), dim=-1)
+    s_sum = s_signed.unsqueeze(-1) + s_signed.unsqueeze(-2)
+    s_sum = torch.where(s_sum == 0, constants._INF, s_sum)
+    grad = u.transpose(-1, -2) @ grad_output @ v_signed
+    grad = (grad - grad.transpose(-1, -2)) / s_sum
+    return u @ grad @ v_signed.transpose(-1, -2)
 
 
 class Normalize(lie_group.UnaryOperator):
-- 
2.43.0


From 72a044df38eafd5d86a75b8a47bc8379d30a2ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:47 +0000
Subject: [PATCH 49/55] fix: tied best solutions of two loops come with the
 iteration reported

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 53649ee..e49672d 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -263,7 +263,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
             best_solution = {}
             best_err_no_grad = info.best_err
             best_err_grad = grad_loop_info.best_err
-            idx_no_grad = (best_err_no_grad < best_err_grad).cpu()
+            idx_no_grad = (best_err_no_grad <= best_err_grad).cpu()
             best_err = torch.minimum(best_err_no_grad, best_err_grad)
             for var_name in info.best_solution:
                 sol_no_grad = info.best_solution[var_name]
-- 
2.43.0


From 3e20e740e86fa4a1e6cb083b1811099aaa72accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:17 +0000
Subject: [PATCH 50/55] fix: a signed distance field given a table of another
 size uses its extent

---
 theseus/embodied/collision/signed_distance_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/embodied/collision/signed_distance_field.py b/theseus/embodied/collision/signed_distance_field.py
index 22aed3e..4e2cd70 100644
--- a/theseus/embodied/collision/signed_distance_field.py
+++ b/theseus/embodied/collision/signed_distance_field.py
@@ -44,8 +44,6 @@ class SignedDistanceField2D:
         self.cell_size: Variable
         self.sdf_data: Variable
         self.update_data(origin, sdf_data, cell_size)
-        self._num_rows = sdf_data.shape[1]
-        self._num_cols = sdf_data.shape[2]
         self.sdf_boundary_value = sdf_boundary_value
 
     def _compute_sdf_data_from_map(
@@ -159,6 +157,8 @@ class SignedDistanceField2D:
 
         # Update sdf_data
         self.sdf_data = SignedDistanceField2D.convert_sdf_data(sdf_data)
+        self._num_rows = self.sdf_data.shape[1]
+        self._num_cols = self.sdf_data.shape[2]
 
     def convert_points_to_cell(
         self, points: torch.Tensor
-- 
2.43.0


From 7fa4a5e00557e877e7c2f3494b50d2868a7c7e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:58 +0000
Subject: [PATCH 51/55] fix: the quaternion of a half turn whose 2nd and 3rd
 diagonal entries tie

---
 theseus/geometry/so3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/so3.py b/theseus/geometry/so3.py
index a9abfe8..f3ff8b0 100644
--- a/theseus/geometry/so3.py
+++ b/theseus/geometry/so3.py
@@ -210,7 +210,7 @@ class SO3(LieGroup):
         ddiag = torch.diagonal(self.tensor, dim1=1, dim2=2)
         # Find the index of major coloumns and diagonals
         major = torch.logical_and(
-            ddiag[:, 1] > ddiag[:, 0], ddiag[:, 1] > ddiag[:, 2]
+            ddiag[:, 1] > ddiag[:, 0], ddiag[:, 1] >= ddiag[:, 2]
         ) + 2 * torch.logical_and(ddiag[:, 2] > ddiag[:, 0], ddiag[:, 2] > ddiag[:, 1])
         aux = torch.ones(self.shape[0], dtype=torch.bool)
         sel_rows = 0.5 * (self[aux, major] + self[aux, :, major])
-- 
2.43.0


From 713d6b69b2a3e33f91211d717ff27916bf30fb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:45 +0000
Subject: [PATCH 52/55] fix: quaternions of rotations close to a half turn lost
 most of their digits in float64

---
 theseus/geometry/so3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/geometry/so3.py b/theseus/geometry/so3.py
index f3ff8b0..f653c69 100644
--- a/theseus/geometry/so3.py
+++ b/theseus/geometry/so3.py
@@ -198,7 +198,8 @@ class SO3(LieGroup):
         w = 0.5 * (1 + self[:, 0, 0] + self[:, 1, 1] + self[:, 2, 2]).clamp(0, 4).sqrt()
 
         near_zero = w > 1 - _THESEUS_GLOBAL_PARAMS.get_eps("so3", "near_zero", w.dtype)
-        near_pi = w <= _THESEUS_GLOBAL_PARAMS.get_eps("so3", "near_pi", w.dtype)
+        # as in the log map, the threshold is on 1 + cos(theta) (= 2 w^2)
+        near_pi = 2 * w * w <= _THESEUS_GLOBAL_PARAMS.get_eps("so3", "near_pi", w.dtype)
         non_zero = self.tensor.new_ones([1])
 
         ret = self.tensor.new_zeros(self.shape[0], 4)
-- 
2.43.0


From 204487e37b9a6c93abaebabaff23b0000e7dccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:30 +0000
Subject: [PATCH 53/55] fix: SE2.rand and SE2.randn with requires_grad raised

---
 theseus/geometry/se2.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index cef556a..1c8319f 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -58,11 +58,12 @@ class SE2(LieGroup):
             generator=generator,
             dtype=dtype,
             device=device,
-            requires_grad=requires_grad,
         )
         x_y_theta[:, 2] = 2 * theseus.constants.PI * (x_y_theta[:, 2] - 0.5)
 
-        return SE2(x_y_theta=x_y_theta)
+        ret = SE2(x_y_theta=x_y_theta)
+        ret.tensor.requires_grad_(requires_grad)
+        return ret
 
     @staticmethod
     def randn(
@@ -80,11 +81,12 @@ class SE2(LieGroup):
             generator=generator,
             dtype=dtype,
             device=device,
-            requires_grad=requires_grad,
         )
         x_y_theta[:, 2] *= theseus.constants.PI
 
-        return SE2(x_y_theta=x_y_theta)
+        ret = SE2(x_y_theta=x_y_theta)
+        ret.tensor.requires_grad_(requires_grad)
+        return ret
 
     def _transform_shape_check(self, point: Union[Point2, torch.Tensor]):
         err_msg = (
-- 
2.43.0


From 55b18ba4feafd08059fd7df37c2f9cc4f4d25fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:48 +0000
Subject: [PATCH 54/55] fix: the approximate Jacobian of Local kept the type of
 an earlier call

---
 theseus/embodied/misc/local_cost_fn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/embodied/misc/local_cost_fn.py b/theseus/embodied/misc/local_cost_fn.py
index c64666a..ff53e8c 100644
--- a/theseus/embodied/misc/local_cost_fn.py
+++ b/theseus/embodied/misc/local_cost_fn.py
@@ -44,6 +44,8 @@ class Local(CostFunction):
             if (
                 self._jac_cache is not None
                 and self._jac_cache.shape[0] == self.var.shape[0]
+                and self._jac_cache.dtype == self.var.dtype
+                and self._jac_cache.device == self.var.device
             ):
                 jacobian = self._jac_cache
             else:
-- 
2.43.0


From 74b77f0e4bfb4e78ddf861059b2c69494cf72725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 55/55] fix: the initial spread of DCEM was rounded to float32
 in float64 problems

---
 theseus/optimizer/nonlinear/dcem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index dbf66ae..f020e91 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -86,7 +86,9 @@ class DCEM(NonlinearOptimizer):
     def reset_sigma(self, init_sigma: Union[float, torch.Tensor]) -> None:
         self.sigma = (
             torch.ones(
-                (self.objective.batch_size, self._tot_dof), device=self.objective.device
+                (self.objective.batch_size, self._tot_dof),
+                device=self.objective.device,
+                dtype=self.objective.dtype,
             )
             * init_sigma
         )
-- 
2.43.0

