From 6d583e10a56195790d10da8e2786acf086bb294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 01/20] fix: support matrix products with outer product
 operators

SciPy passes columns of shape [D, 1] to _matvec, which the einsum equation
(that expects a vector) rejected with a ValueError.
---
 curvlinops/outer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/outer.py b/curvlinops/outer.py
index a87c676..675cefb 100644
--- a/curvlinops/outer.py
+++ b/curvlinops/outer.py
@@ -42,7 +42,7 @@ class OuterProductLinearOperator(LinearOperator):
         Returns:
             Result of linear operator applied to the vector.
         """
-        return einsum(self._equation, *self._operands, x, optimize=self._path)
+        return einsum(self._equation, *self._operands, x.ravel(), optimize=self._path)
 
     def _adjoint(self) -> OuterProductLinearOperator:
         """Return the linear operator representing the adjoint.
-- 
2.43.0


From d6c4fe69b91d29a633b80e3d31a95b51a9cdd915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 02/20] fix: multiply submatrix operators onto single-column
 matrices

SciPy dispatches matrices of shape [N, 1] to _matvec, where assigning them to
a one-dimensional slice failed to broadcast.
---
 curvlinops/submatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index 3fda4a8..6c7fe5f 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -63,7 +63,7 @@ class SubmatrixLinearOperator(LinearOperator):
              ``A[row_idxs, :][:, col_idxs] @ x``. Has shape ``[len(row_idxs)]``.
         """
         v = zeros((self._A.shape[1],), dtype=self._A.dtype)
-        v[self._col_idxs] = x
+        v[self._col_idxs] = x.ravel()
         Av = self._A @ v
 
         return Av[self._row_idxs]
-- 
2.43.0


From 188c53c419a4ed12b1f8af9d9882c8419ea8a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 03/20] fix: use SciPy's default condition number limit for
 LSMR

The default of 1e-8 (SciPy: 1e8) stopped LSMR after its first iteration, so
the inverse was wrong unless all hyperparameters were passed explicitly.
---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 0a35f57..d6db858 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -112,7 +112,7 @@ class LSMRInverseLinearOperator(_InverseLinearOperator):
         damp: float = 0.0,
         atol: Optional[float] = 1e-6,
         btol: Optional[float] = 1e-6,
-        conlim: Optional[float] = 1e-8,
+        conlim: Optional[float] = 1e8,
         maxiter: Optional[int] = None,
         show: Optional[bool] = False,
         x0: Optional[ndarray] = None,
-- 
2.43.0


From 7f044da43fcd4596f505c7272cddba8c51a0ddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 04/20] fix: do not modify the tensor list multiplied by
 inverse KFAC

Matrices in tensor list format are passed through to _matmat, which replaced
the entries of the user's list with the result.
---
 curvlinops/inverse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index d6db858..fd59343 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -631,6 +631,9 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         if not self._A._input_covariances and not self._A._gradient_covariances:
             self._A._compute_kfac()
 
+        # entries are replaced below, do not modify the list passed by the user
+        X = list(X)
+
         for mod_name, param_pos in self._A._mapping.items():
             # retrieve the inverses of the Kronecker factors from cache or invert them
             aaT_inv, ggT_inv = self._compute_or_get_cached_inverse(mod_name)
-- 
2.43.0


From 59fd8b545ca834f5e15841fdf1b8b896a54a6195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 05/20] fix: do not truncate results of SciPy exports for
 integer inputs

Multiplying a SciPy export onto an integer-valued array cast the result to
integers.
---
 curvlinops/_torch_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 76217a5..234c68e 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -377,7 +377,9 @@ class PyTorchLinearOperator:
             # (https://github.com/pytorch/pytorch/issues/90574)
             if AX_torch.dtype == bfloat16:
                 AX_torch = AX_torch.float()
-            return AX_torch.detach().cpu().numpy().astype(X.dtype)
+            AX = AX_torch.detach().cpu().numpy()
+            # do not truncate the result to integers if ``X`` is not floating-point
+            return AX.astype(X.dtype) if numpy.issubdtype(X.dtype, numpy.inexact) else AX
 
         return f_scipy
 
-- 
2.43.0


From 24ca7fb6dc423b3b026265b8384bef95165febd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 06/20] fix: raise ValueError when multiplying onto a
 zero-dimensional tensor

Accessing the shape's first entry raised an IndexError.
---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 234c68e..7ec61f4 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -191,7 +191,7 @@ class PyTorchLinearOperator:
         Raises:
             ValueError: If the input tensor has an invalid shape.
         """
-        if X.ndim > 2 or X.shape[0] != self.shape[1]:
+        if X.ndim not in {1, 2} or X.shape[0] != self.shape[1]:
             raise ValueError(
                 f"Input tensor must have shape ({self.shape[1]},) or "
                 + f"({self.shape[1]}, K), with K arbitrary. Got {X.shape}."
-- 
2.43.0


From 3407123e5f3c325c0a14155462cf19a7037320f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 07/20] fix: compare total losses in determinism check

The check compared the losses of the last mini-batch instead. This rejected
shuffled data for operators that do not require a fixed data order, and
missed differences of the total loss.
---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 7ec61f4..4d71734 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -752,7 +752,7 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
                     total_g2.add_(g2)
 
         if self._loss_func is not None:
-            if not allclose_report(loss1, loss2, rtol=rtol, atol=atol):
+            if not allclose_report(total_loss1, total_loss2, rtol=rtol, atol=atol):
                 raise RuntimeError("Check for deterministic total loss failed.")
 
             if any(
-- 
2.43.0


From 872607001483c021b30d5577a29bb83a33101fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 08/20] fix: clean up after KFAC's factor computation fails

An exception while looping over the data left the hooks installed on the
model, and the partially accumulated Kronecker factors were used silently in
the next product.
---
 curvlinops/kfac.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 281ff17..a461fff 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -431,13 +431,19 @@ class KFACLinearOperator(CurvatureLinearOperator):
             self._generator = Generator(device=self._device)
         self._generator.manual_seed(self._seed)
 
-        for X, y in self._loop_over_data(desc="KFAC matrices"):
-            output = self._model_func(X)
-            self._compute_loss_and_backward(output, y)
-
-        # clean up
-        for handle in hook_handles:
-            handle.remove()
+        try:
+            for X, y in self._loop_over_data(desc="KFAC matrices"):
+                output = self._model_func(X)
+                self._compute_loss_and_backward(output, y)
+        except BaseException:
+            # do not keep Kronecker factors of an incomplete pass over the data
+            self._input_covariances.clear()
+            self._gradient_covariances.clear()
+            raise
+        finally:
+            # clean up
+            for handle in hook_handles:
+                handle.remove()
 
     def _maybe_adjust_loss_scale(self, loss: Tensor, output: Tensor) -> Tensor:
         """Adjust the scale of the loss tensor if necessary.
-- 
2.43.0


From 774eecb4fda1bdf82e3e34bf81873a302ed208b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 09/20] fix: validate the Kronecker factors passed to KFAC's
 load_state_dict

The keys of the linear operator's own factors were checked instead of the
ones in the state dict, so a mismatching state was accepted by operators
whose factors had not yet been computed, and caused a KeyError later. Layers
of which only the bias is considered do not have an input covariance.
---
 curvlinops/kfac.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index a461fff..018f60c 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -1007,21 +1007,24 @@ class KFACLinearOperator(CurvatureLinearOperator):
         self._N_data = state_dict["num_data"]
 
         # Set Kronecker factors (if computed)
-        if self._input_covariances or self._gradient_covariances:
+        if state_dict["input_covariances"] or state_dict["gradient_covariances"]:
             # If computed, check if the keys match the mapping keys
-            input_covariances_keys = set(self._input_covariances.keys())
-            gradient_covariances_keys = set(self._gradient_covariances.keys())
+            input_covariances_keys = set(state_dict["input_covariances"].keys())
+            gradient_covariances_keys = set(state_dict["gradient_covariances"].keys())
             mapping_keys = set(self._mapping.keys())
-            if (input_covariances_keys and input_covariances_keys != mapping_keys) or (
-                gradient_covariances_keys and gradient_covariances_keys != mapping_keys
+            # layers for which only the bias is considered have no input covariance
+            weight_keys = {n for n, pos in self._mapping.items() if "weight" in pos}
+            if (
+                input_covariances_keys != weight_keys
+                or gradient_covariances_keys != mapping_keys
             ):
                 raise ValueError(
                     "Input or gradient covariance keys in state dict do not match "
                     "mapping keys of linear operator. "
                     "Difference between input covariance and mapping keys: "
-                    f"{input_covariances_keys - mapping_keys}. "
+                    f"{input_covariances_keys ^ weight_keys}. "
                     "Difference between gradient covariance and mapping keys: "
-                    f"{gradient_covariances_keys - mapping_keys}."
+                    f"{gradient_covariances_keys ^ mapping_keys}."
                 )
         self._input_covariances = state_dict["input_covariances"]
         self._gradient_covariances = state_dict["gradient_covariances"]
-- 
2.43.0


From 25d3d05d6ebac7d5a267a9f6f54023a4a5998b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 10/20] fix: compute the square root of a single-class
 cross-entropy Hessian

Squeezing all dimensions turned a single class's probability into a scalar,
for which diag raised an error.
---
 curvlinops/kfac_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/kfac_utils.py b/curvlinops/kfac_utils.py
index d706173..a7397fb 100644
--- a/curvlinops/kfac_utils.py
+++ b/curvlinops/kfac_utils.py
@@ -121,7 +121,7 @@ def loss_hessian_matrix_sqrt(
 
     elif isinstance(loss_func, CrossEntropyLoss):
         c = 1.0
-        p = output_one_datum.softmax(dim=1).squeeze()
+        p = output_one_datum.softmax(dim=1).squeeze(0)
         p_sqrt = p.sqrt()
         return (diag(p_sqrt) - einsum(p, p_sqrt, "i, j -> i j")).mul_(sqrt(c))
 
-- 
2.43.0


From a568ab6c7401a9ef8877c0accc80a98160234385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 11/20] fix: report the unknown distribution when drawing a
 random vector

The f-string's invalid format specifier raised an unrelated ValueError.
---
 curvlinops/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/sampling.py b/curvlinops/sampling.py
index 6001096..45c329e 100644
--- a/curvlinops/sampling.py
+++ b/curvlinops/sampling.py
@@ -48,4 +48,4 @@ def random_vector(dim: int, distribution: str) -> ndarray:
     elif distribution == "normal":
         return normal(dim)
     else:
-        raise ValueError(f"Unknown distribution {distribution:!r}.")
+        raise ValueError(f"Unknown distribution {distribution!r}.")
-- 
2.43.0


From bafda4838ce6eb8b6d93cad656114f37b0d76299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:42 +0000
Subject: [PATCH 12/20] fix: multiply SciPy exports onto arrays with negative
 strides

---
 curvlinops/_torch_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 4d71734..dc6b8d0 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -371,7 +371,10 @@ class PyTorchLinearOperator:
             Returns:
                 The output matrix in NumPy format.
             """
-            X_torch = as_tensor(X, dtype=dtype, device=device)
+            # PyTorch does not support arrays with negative strides
+            X_torch = as_tensor(
+                numpy.ascontiguousarray(X), dtype=dtype, device=device
+            )
             AX_torch = f(X_torch)
             # calling .numpy() on a BF-16 tensor is not supported, see
             # (https://github.com/pytorch/pytorch/issues/90574)
-- 
2.43.0


From 3091118b5a7548304389224002c9d686d7df99f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 13/20] fix: do not truncate vectors multiplied onto submatrix
 operators

---
 curvlinops/submatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index 6c7fe5f..197fd6e 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 from typing import List
 
-from numpy import column_stack, ndarray, zeros
+from numpy import column_stack, ndarray, result_type, zeros
 from scipy.sparse.linalg import LinearOperator
 
 
@@ -62,7 +62,7 @@ class SubmatrixLinearOperator(LinearOperator):
              Result of the (sub-matrix)-vector-multiplication,
              ``A[row_idxs, :][:, col_idxs] @ x``. Has shape ``[len(row_idxs)]``.
         """
-        v = zeros((self._A.shape[1],), dtype=self._A.dtype)
+        v = zeros((self._A.shape[1],), dtype=result_type(self._A.dtype, x.dtype))
         v[self._col_idxs] = x.ravel()
         Av = self._A @ v
 
-- 
2.43.0


From 0f9c6ea37b64ed8fd447c8f65b4c2b15f97a422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 14/20] fix: do not cache an incomplete subspace trace in
 Hutch++

---
 curvlinops/trace/meyer2020hutch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvlinops/trace/meyer2020hutch.py b/curvlinops/trace/meyer2020hutch.py
index e37f32e..2dacfbd 100644
--- a/curvlinops/trace/meyer2020hutch.py
+++ b/curvlinops/trace/meyer2020hutch.py
@@ -145,8 +145,10 @@ class HutchPPTraceEstimator:
         )
         self._Q, _ = qr(AS)
 
-        self._tr_QT_A_Q = 0.0
+        # do not cache the trace before it is complete
+        tr_QT_A_Q = 0.0
         for i in range(self._basis_dim):
             v = self._Q[:, i]
             Av = self._A @ v
-            self._tr_QT_A_Q += dot(v, Av)
+            tr_QT_A_Q += dot(v, Av)
+        self._tr_QT_A_Q = tr_QT_A_Q
-- 
2.43.0


From a3cf9daeb97142a79173ef42bf6deca2691a3484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 15/20] fix: do not share Kronecker factor dictionaries via
 state dicts

---
 curvlinops/inverse.py | 7 +++++--
 curvlinops/kfac.py    | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index fd59343..3f7346f 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -702,8 +702,11 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         self._retry_double_precision = state_dict["retry_double_precision"]
 
         # Set inverse Kronecker factors (if computed and cached)
-        self._inverse_input_covariances = state_dict["inverse_input_covariances"]
-        self._inverse_gradient_covariances = state_dict["inverse_gradient_covariances"]
+        # (copy the dictionaries, they are modified if inverses are added to the cache)
+        self._inverse_input_covariances = dict(state_dict["inverse_input_covariances"])
+        self._inverse_gradient_covariances = dict(
+            state_dict["inverse_gradient_covariances"]
+        )
 
     @classmethod
     def from_state_dict(
diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 018f60c..5ba4b34 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -1026,8 +1026,9 @@ class KFACLinearOperator(CurvatureLinearOperator):
                     "Difference between gradient covariance and mapping keys: "
                     f"{gradient_covariances_keys ^ mapping_keys}."
                 )
-        self._input_covariances = state_dict["input_covariances"]
-        self._gradient_covariances = state_dict["gradient_covariances"]
+        # (copy the dictionaries, they are modified if the factors are computed)
+        self._input_covariances = dict(state_dict["input_covariances"])
+        self._gradient_covariances = dict(state_dict["gradient_covariances"])
 
         # Set properties (not necessarily computed)
         self._trace = state_dict["trace"]
-- 
2.43.0


From e51ac4faa962ddca202469de901d58513b6d630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 16/20] fix: also copy single-column arrays with negative
 strides in SciPy exports

---
 curvlinops/_torch_base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index dc6b8d0..c390bc9 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -372,9 +372,8 @@ class PyTorchLinearOperator:
                 The output matrix in NumPy format.
             """
             # PyTorch does not support arrays with negative strides
-            X_torch = as_tensor(
-                numpy.ascontiguousarray(X), dtype=dtype, device=device
-            )
+            X_copy = X.copy() if any(s < 0 for s in X.strides) else X
+            X_torch = as_tensor(X_copy, dtype=dtype, device=device)
             AX_torch = f(X_torch)
             # calling .numpy() on a BF-16 tensor is not supported, see
             # (https://github.com/pytorch/pytorch/issues/90574)
-- 
2.43.0


From 169f2ea6d3c8e01f6ae10eabb087fbbfb9e6852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 17/20] fix: do not differentiate through the sampled gradients
 of the MC-Fisher

---
 curvlinops/fisher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/fisher.py b/curvlinops/fisher.py
index d4a1e5e..0997409 100644
--- a/curvlinops/fisher.py
+++ b/curvlinops/fisher.py
@@ -227,7 +227,7 @@ class FisherMCLinearOperator(CurvatureLinearOperator):
             output = rearrange(output, "batch ... c -> (batch ...) c")
             y = rearrange(y, "batch ... c -> (batch ...) c")
 
-        grad_output = self.sample_grad_output(output, self._mc_samples, y)
+        grad_output = self.sample_grad_output(output.detach(), self._mc_samples, y)
 
         # Adjust the scale depending on the loss function and reduction used
         num_loss_terms, C = output.shape
-- 
2.43.0


From f62b93d0af11e12880fea8a4d5f3fd6f80ff288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:42 +0000
Subject: [PATCH 18/20] fix: multiply one-dimensional LSMR inverses onto a
 column

---
 curvlinops/inverse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 3f7346f..8a43262 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -150,7 +150,8 @@ class LSMRInverseLinearOperator(_InverseLinearOperator):
             https://docs.scipy.org/doc/scipy/reference/generated/scipy.sparse.linalg.lsmr.html
             for details (same return values).
         """
-        return lsmr(self._A, x, **self._lsmr_hyperparameters)
+        # SciPy does not support a right-hand side of shape ``[1, 1]``
+        return lsmr(self._A, x.ravel(), **self._lsmr_hyperparameters)
 
     def _matvec(self, x: ndarray) -> ndarray:
         """Multiply x by the inverse of A.
-- 
2.43.0


From bf4b13e40f1e469535d8e5c9766ba20336c3eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 19/20] fix: do not divide by zero in heuristic damping of
 layers with zero inputs

---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 8a43262..2b0b1c0 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -393,7 +393,7 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
             # Martens and Grosse, 2015 (https://arxiv.org/abs/1503.05671) (Section 6.3)
             aaT_eig_mean = aaT.trace() / aaT.shape[0]
             ggT_eig_mean = ggT.trace() / ggT.shape[0]
-            if aaT_eig_mean >= 0.0 and ggT_eig_mean > 0.0:
+            if aaT_eig_mean > 0.0 and ggT_eig_mean > 0.0:
                 sqrt_eig_mean_ratio = (aaT_eig_mean / ggT_eig_mean).sqrt()
                 sqrt_damping = sqrt(self._damping)
                 damping_aaT = max(sqrt_damping * sqrt_eig_mean_ratio, self._min_damping)
-- 
2.43.0


From cd02494270bd5c1898bca445b8c8e912c8317d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 20/20] fix: CG inverse stops at SciPy's default absolute
 tolerance

An un-set atol was passed as None, which SciPy turns into an absolute
tolerance of tol. Right-hand sides with a norm below 1e-5 were mapped to 0.
---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 2b0b1c0..2e1678d 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -55,7 +55,7 @@ class CGInverseLinearOperator(_InverseLinearOperator):
         maxiter: Optional[int] = None,
         M: Optional[Union[ndarray, LinearOperator]] = None,
         callback: Optional[Callable] = None,
-        atol: Optional[float] = None,
+        atol: Optional[float] = 0.0,
         tol: Optional[float] = 1e-5,
     ):
         """Store hyperparameters for CG.
-- 
2.43.0

