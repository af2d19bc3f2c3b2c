From c4fdc13f1b268de29d5ce2bc37a789cc3f6b5c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 01/39] fix: Hayhurst-Leckie damage derivatives miss their
 chain rule factors

---
 pyoptmat/damage.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/damage.py b/pyoptmat/damage.py
index 32cce5c..3198952 100644
--- a/pyoptmat/damage.py
+++ b/pyoptmat/damage.py
@@ -111,9 +111,9 @@ class HayhurstLeckie(DamageModel):
         """
         return (torch.abs(s) / self.A(T)) ** self.xi(T) * (1 - d) ** (
             self.xi(T) - self.phi(T)
-        ), -((torch.abs(s) / self.A(T)) ** self.xi(T)) * (1 - d) ** (
-            self.xi(T) - self.phi(T) - 1
-        )
+        ), -(self.xi(T) - self.phi(T)) * (torch.abs(s) / self.A(T)) ** self.xi(T) * (
+            1 - d
+        ) ** (self.xi(T) - self.phi(T) - 1)
 
     def d_damage_rate_d_s(self, s, d, t, T, e):
         """
@@ -126,7 +126,9 @@ class HayhurstLeckie(DamageModel):
           T (torch.tensor):      temperature
         """
         return (
-            (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
+            self.xi(T)
+            / self.A(T)
+            * (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
             * (1 - d) ** (self.xi(T) - self.phi(T))
             * torch.sign(s)
         )
-- 
2.43.0


From 003237b9b1d59b4437171c5364d0e56003deb933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 02/39] fix: damaged model Jacobian ignores that the effective
 stress depends on damage

---
 pyoptmat/models.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index 19d4d1d..f658420 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -230,14 +230,12 @@ class DamagedInelasticModel(nn.Module):
             ],
             dim=-1,
         )
+        ddrate_ds = self.dmodel.d_damage_rate_d_s(stress / (1 - d), d, t, T, erate)
         row3 = torch.cat(
             [
-                (
-                    self.dmodel.d_damage_rate_d_s(stress / (1 - d), d, t, T, erate)
-                    / (1 - d)
-                )[..., None, None],
+                (ddrate_ds / (1 - d))[..., None, None],
                 torch.zeros_like(h).unsqueeze(-2),
-                ddrate[..., None, None],
+                (ddrate + ddrate_ds * stress / (1 - d) ** 2)[..., None, None],
             ],
             dim=-1,
         )
-- 
2.43.0


From 69076e25b2aa25e87fd0c8993be3db25c2f84e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 03/39] fix: stress controlled Jacobian drops the history rate
 sensitivity to the strain rate

---
 pyoptmat/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index f658420..e932ee0 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -550,6 +550,8 @@ class StressBasedModel(nn.Module):
 
         # Rescale the jacobian
         J[..., 0, :] = -J[..., 0, :] / Je[..., 0][..., None]
+        # The strain rate depends on the history, which the history rates may see
+        J[..., 1:, :] += Je[..., 1:, None] * J[..., :1, :].clone()
         J[..., :, 0] = 0
 
         # Insert the strain rate
-- 
2.43.0


From d018070932a19af719168def4a9de378478f6dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 04/39] fix: viscoplastic flow derivatives are nonzero below
 yield for a rate sensitivity of one

---
 pyoptmat/flowrules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index 249ba36..d3f2562 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -1189,6 +1189,7 @@ class IsoKinViscoplasticity(FlowRule):
             self.n(T)
             * utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T))
             ** (self.n(T) - 1)
+            * utility.heaviside(torch.abs(s - kh) - self.s0(T) - ih)
             / self.eta(T),
         )
 
@@ -1216,6 +1217,7 @@ class IsoKinViscoplasticity(FlowRule):
         return (
             -self.n(T)
             * utility.macaulay(iv) ** (self.n(T) - 1)
+            * utility.heaviside(iv)
             / self.eta(T)
             * torch.sign(s - kh)
         )
@@ -1243,6 +1245,7 @@ class IsoKinViscoplasticity(FlowRule):
             -self.n(T)
             * utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T))
             ** (self.n(T) - 1)
+            * utility.heaviside(torch.abs(s - kh) - self.s0(T) - ih)
             / self.eta(T)
         )
 
-- 
2.43.0


From 7e258eddf04d110b0517dd403f01f61699302484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 05/39] fix: Kocks-Mecking flow rules ignore the scaling of the
 shear modulus

---
 pyoptmat/flowrules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index d3f2562..88f9e29 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -208,7 +208,7 @@ class KocksMeckingRegimeFlowRule(FlowRule):
         return (
             self.k
             * T
-            / (self.mu.value(T) * self.b**3.0)
+            / (self.mu(T) * self.b**3.0)
             * torch.log(self.eps0 / (torch.abs(e) + self.eps))
         )
 
@@ -473,7 +473,7 @@ class SoftKocksMeckingRegimeFlowRule(FlowRule):
         return (
             self.k
             * T
-            / (self.mu.value(T) * self.b**3.0)
+            / (self.mu(T) * self.b**3.0)
             * torch.log(self.eps0 / (torch.abs(e) + self.eps))
         )
 
@@ -490,7 +490,7 @@ class SoftKocksMeckingRegimeFlowRule(FlowRule):
             torch.tensor:       derivative of the activation energy
         """
         return -(
-            self.k * T / (self.mu.value(T) * self.b**3.0) / (torch.abs(e) + self.eps)
+            self.k * T / (self.mu(T) * self.b**3.0) / (torch.abs(e) + self.eps)
         ) * torch.sign(e)
 
     def f(self, T, e):
-- 
2.43.0


From d6f574425e05ad0e527e26a40ba5f4f2fed9d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 06/39] fix: blocked Newton solver ends silently on a residual
 that is not a number

---
 pyoptmat/chunktime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index a84e0c1..d566a01 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -48,12 +48,14 @@ def newton_raphson_chunk(
     i = 0
 
     while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
-        x -= solver.solve(J, R)
+        x = x - solver.solve(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    if not torch.all(torch.isfinite(nR)) or (
+        torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
+    ):
         if throw_on_fail:
             raise RuntimeError("Implicit solve did not succeed.")
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
-- 
2.43.0


From 7c0f16af208d13294b31430231fc4c11083ed23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 07/39] fix: nonlinear solvers overwrite the caller's starting
 point

---
 pyoptmat/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index 5044715..cb46282 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -114,7 +114,7 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
     i = 0
 
     while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
-        x -= solver(J, R)
+        x = x - solver(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
         i += 1
@@ -418,7 +418,7 @@ class PreconditionerReuseNonlinearSolver:
                 return_iters=True,
                 tol=ltol,
             )
-            x -= dx
+            x = x - dx
             R, J = fn(x)
             if niter > l_refactor:
                 self._update_preconditioner(J)
-- 
2.43.0


From 6cac805b715d03f5ba96f119b600c9fefd55a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 08/39] fix: nonlinear solvers end silently on a residual that
 is not a number

---
 pyoptmat/solvers.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index cb46282..3582f32 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -69,7 +69,9 @@ def newton_raphson_bt(
         x = xp
         i += 1
 
-    if i == miter:
+    if not torch.all(torch.isfinite(nR)) or (
+        torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
+    ):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -119,7 +121,9 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    if not torch.all(torch.isfinite(nR)) or (
+        torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
+    ):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -425,7 +429,9 @@ class PreconditionerReuseNonlinearSolver:
             nR = torch.norm(R, dim=-1)
             i += 1
 
-        if i == miter:
+        if not torch.all(torch.isfinite(nR)) or (
+            torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
+        ):
             warnings.warn(
                 "Implicit solve did not succeed.  Results may be inaccurate..."
             )
-- 
2.43.0


From 28221fcab4d4d3cd8518d24abed8d1a776fe5674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 09/39] fix: bidiagonal factorizations overwrite their input
 and misread strided right hand sides

---
 pyoptmat/chunktime.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index d566a01..f18bb34 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -211,7 +211,7 @@ class BidiagonalThomasFactorization(LUFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
-        return thomas_solve(self.lu, self.pivots, self.B, v)
+        return thomas_solve(self.lu, self.pivots, self.B, v.clone())
 
 
 class BidiagonalPCRFactorization(LUFactorization):
@@ -230,18 +230,16 @@ class BidiagonalPCRFactorization(LUFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
-        # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        # The reduction works in place, so leave our data and the input alone
+        B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        v = v.clone(memory_format=torch.contiguous_format)
 
         # Now figure out how many powers of 2 we need to complete our matrix
         for s, e in zip(*self._pow2(self.nblk)):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
+            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
+                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
             )
 
-        # To retain consistent sizes
-        self.B = self.B[1:]
-
         return torch.linalg.lu_solve(self.lu, self.pivots, v)
 
     def _solve_block(self, lu, pivots, B, v):
@@ -356,21 +354,19 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
-        # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        # The reduction works in place, so leave our data and the input alone
+        B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        v = v.clone(memory_format=torch.contiguous_format)
 
         # Get the PCR blocks to actually use
         start, end, last = self._pcr_blocks()
 
         # Do PCR
         for s, e in zip(start, end):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
+            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
+                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
             )
 
-        # To retain consistent sizes
-        self.B = self.B[1:]
-
         # We still need to solve the first block even if last is 0
 
         # The actual LU solve for the solution
@@ -384,7 +380,7 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
             v[i] = torch.linalg.lu_solve(
                 self.lu[i],
                 self.pivots[i],
-                v[i] - torch.bmm(self.B[i - 1], v[i - 1].clone()),
+                v[i] - torch.bmm(B[i], v[i - 1].clone()),
             )
 
         return v
-- 
2.43.0


From c6efc1d294f8181ceb19a4f2227c0bf93a597bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 10/39] fix: backpropagation through the PCR and hybrid solves
 fails

---
 pyoptmat/chunktime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index f18bb34..c28b573 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -264,12 +264,13 @@ class BidiagonalPCRFactorization(LUFactorization):
         for i in range(niter):
             # Reduce RHS
             v[:, 1:] -= mbmm(
-                B[:, 1:], torch.linalg.lu_solve(lu[:, :-1], pivots[:, :-1], v[:, :-1])
+                B[:, 1:].clone(),
+                torch.linalg.lu_solve(lu[:, :-1], pivots[:, :-1], v[:, :-1]),
             )
 
             # Reduce off diagonal coefficients
             B[:, 2:] = -mbmm(
-                B[:, 2:],
+                B[:, 2:].clone(),
                 torch.linalg.lu_solve(lu[:, 1:-1], pivots[:, 1:-1], B[:, 1:-1]),
             )
 
-- 
2.43.0


From 608a141fd6f00f7629b09917df19073fdb52a3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 11/39] fix: adjoint backward pass fails with frozen or unused
 parameters

---
 pyoptmat/ode.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index cb7989f..d38f567 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -420,7 +420,11 @@ class FixedGridBlockSolver:
         """
         with torch.enable_grad():
             ydot = self.func(t, y)[0]
-            return torch.autograd.grad(ydot, self.adjoint_params, a)
+            if not ydot.requires_grad:
+                return tuple(torch.zeros_like(p) for p in self.adjoint_params)
+            return torch.autograd.grad(
+                ydot, self.adjoint_params, a, materialize_grads=True
+            )
 
     def rewind(self, output_grad):
         """
@@ -659,7 +663,9 @@ def odeint_adjoint(
     # Grab parameters for backward
     if extra_params is None:
         extra_params = []
-    adjoint_params = tuple(p for p in func.parameters()) + tuple(extra_params)
+    adjoint_params = tuple(
+        p for p in tuple(func.parameters()) + tuple(extra_params) if p.requires_grad
+    )
 
     solver = FixedGridBlockSolver(
         func, y0, scheme=int_methods[method], adjoint_params=adjoint_params, **kwargs
-- 
2.43.0


From 47d9d7bf6f7c78bd9f1f491d564c11281ebf4784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 12/39] fix: backpropagation loses the gradient of steps which
 start out converged

---
 pyoptmat/chunktime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index c28b573..501c399 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -53,6 +53,10 @@ def newton_raphson_chunk(
         nR = torch.norm(R, dim=-1)
         i += 1
 
+    # Backpropagation needs one update to see how the solution depends on the problem
+    if i == 0 and R.requires_grad:
+        x = x - solver.solve(J, R)
+
     if not torch.all(torch.isfinite(nR)) or (
         torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
     ):
-- 
2.43.0


From 6aceac9a62030bdb8f1158186d4062daab7be751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 13/39] fix: GMRES returns NaN for batch members that start out
 solved

---
 pyoptmat/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index 3582f32..b8e5976 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -319,7 +319,7 @@ def gmres(
 
     # Basis
     V = torch.zeros((nbatch, b.shape[-1], maxiter + 1), device=A.device)
-    V[..., :, 0] = r / torch.linalg.norm(r, dim=-1)[:, None]
+    V[..., :, 0] = r / torch.linalg.norm(r, dim=-1).clamp(min=eps)[:, None]
 
     # Preconditioned basis
     Z = torch.zeros((nbatch, b.shape[-1], maxiter + 1), device=A.device)
-- 
2.43.0


From e952d137cd58e319268e38b955a8da665c6c595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 14/39] fix: cyclic and hold results use the cycle counts of
 the first experiment for all of them

---
 pyoptmat/experiments.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index 4a9afd0..eb5f123 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -253,12 +253,13 @@ def format_relaxation(cycles, predictions):
       torch.tensor:                 processed results
     """
     result = torch.zeros_like(predictions)
-    rcurve = cycles[:, 0] == 1  # This is right, but dangerous in the future
+    rcurve = cycles == 1
 
-    curve = predictions[rcurve]
-    curve = curve - curve[0]
+    # The hold starts at a different point in each experiment
+    _, index = torch.max(rcurve, 0)
+    curve = predictions - predictions.gather(0, index.view(1, -1))
 
-    result[rcurve] = curve
+    result[rcurve] = curve[rcurve]
 
     return result
 
@@ -281,11 +282,10 @@ def format_cyclic(cycles, predictions):
     """
     # If this is slow we can probably remove the for loop
     result = torch.zeros_like(predictions)
-    uc = cycles[:, 0]  # Correct but dangerous for future expansion
-    for i in range(uc[-1] + 1):
-        curr = uc == i
-        vals, _ = torch.max(predictions[curr], axis=0)
-        result[curr] = vals
+    for i in range(torch.max(cycles) + 1):
+        curr = cycles == i
+        vals, _ = torch.max(torch.where(curr, predictions, -torch.inf), axis=0)
+        result = torch.where(curr, vals, result)
 
     return result
 
-- 
2.43.0


From 6eb75f00aaa044095dd41f8e1f287b14772ac211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 15/39] fix: piecewise parameters report the wrong batch shape

---
 pyoptmat/temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/temperature.py b/pyoptmat/temperature.py
index 52ddc3f..1f64f57 100644
--- a/pyoptmat/temperature.py
+++ b/pyoptmat/temperature.py
@@ -576,7 +576,7 @@ class PiecewiseScaling(TemperatureParameter):
         """
         Shape of the underlying parameter
         """
-        return self.values.shape[1:]
+        return self.values.shape[:-1]
 
 
 class ArrheniusScaling(TemperatureParameter):
-- 
2.43.0


From 42534d377c31e5b63546f7e3b24ec00a5cd4ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 16/39] fix: scaled mean of log bounded parameters is left in
 log space

---
 pyoptmat/scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/scaling.py b/pyoptmat/scaling.py
index 132e62f..f8746e5 100644
--- a/pyoptmat/scaling.py
+++ b/pyoptmat/scaling.py
@@ -303,4 +303,4 @@ class LogBoundedScalingFunction(ScalingFunction):
         A = torch.log(self.u) - torch.log(self.l)
         B = torch.log(self.l)
 
-        return A * loc + B
+        return torch.exp(A * loc + B + (A * scale) ** 2 / 2.0)
-- 
2.43.0


From d53573a6fcbd8c9d9a28cea08f674978be360042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 17/39] fix: time series interpolation returns NaN if the first
 time is repeated

---
 pyoptmat/utility.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 2e57e0c..87496a0 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -298,7 +298,9 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
         self.times = times.t()
         self.values = data.t()
 
-        self.slopes = torch.diff(self.values, dim=-1) / torch.diff(self.times, dim=-1)
+        dt = torch.diff(self.times, dim=-1)
+        # An empty interval can only return the value at its start
+        self.slopes = torch.diff(self.values, dim=-1) / torch.where(dt == 0, 1.0, dt)
 
     def forward(self, t):
         """
-- 
2.43.0


From d537c158e16465e2f645bff7b99572b52b238b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 18/39] fix: previous step guess fails if the first block is
 not full

---
 pyoptmat/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index d38f567..28a3c3f 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -402,8 +402,8 @@ class FixedGridBlockSolver:
                 guess = torch.zeros_like(result[k : k + self.n])
             else:
                 guess = result[(k - self.n) : k] - result[k - self.n - 1].unsqueeze(0)
-            blk = self.n - result[k : k + self.n].shape[0]
-            guess = guess[blk:]
+                blk = self.n - result[k : k + self.n].shape[0]
+                guess = guess[blk:]
         else:
             raise ValueError(f"Unknown initial guess strategy {self.guess_type}!")
 
-- 
2.43.0


From 6c4029683624102a896aebc728c6db0e0fc1ac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 19/39] fix: backpropagation gradient is wrong if the Newton
 solve converges in one step

---
 pyoptmat/chunktime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 501c399..c9121ae 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -53,8 +53,8 @@ def newton_raphson_chunk(
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    # Backpropagation needs one update to see how the solution depends on the problem
-    if i == 0 and R.requires_grad:
+    # Backpropagation needs one update at the solution to see how it depends on the problem
+    if R.requires_grad:
         x = x - solver.solve(J, R)
 
     if not torch.all(torch.isfinite(nR)) or (
-- 
2.43.0


From 9fc15a0cd96d140c177a6f8b2267e0aa8aabda43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 20/39] fix: derivative of the strain rate is lost if a stress
 controlled step starts out converged

---
 pyoptmat/solvers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index b8e5976..4e271d6 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -69,6 +69,10 @@ def newton_raphson_bt(
         x = xp
         i += 1
 
+    # Backpropagation needs one update at the solution to see how it depends on the problem
+    if R.requires_grad:
+        x = x - solver(J, R)
+
     if not torch.all(torch.isfinite(nR)) or (
         torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
     ):
@@ -121,6 +125,10 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
         nR = torch.norm(R, dim=-1)
         i += 1
 
+    # Backpropagation needs one update at the solution to see how it depends on the problem
+    if R.requires_grad:
+        x = x - solver(J, R)
+
     if not torch.all(torch.isfinite(nR)) or (
         torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
     ):
-- 
2.43.0


From fd25f510854fb9f758a7c4e4a8b821749d41465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 21/39] fix: unrolled CSR matrices lose empty trailing rows and
 columns

---
 pyoptmat/chunktime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index c9121ae..d1b7004 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -714,6 +714,8 @@ class SquareBatchedBlockDiagonalMatrix:
         """
         coo = self.to_batched_coo()
         return [
-            torch.sparse_coo_tensor(coo.indices(), coo.values()[:, i]).to_sparse_csr()
+            torch.sparse_coo_tensor(
+                coo.indices(), coo.values()[:, i], size=(self.n, self.n)
+            ).to_sparse_csr()
             for i in range(self.sbat)
         ]
-- 
2.43.0


From 7a601f6302a10a3f793e6bc3846563a4eeda84dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 22/39] fix: backpropagation update at the solution perturbs
 the solution itself

---
 pyoptmat/chunktime.py | 2 +-
 pyoptmat/solvers.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index d1b7004..ddcb37a 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -55,7 +55,7 @@ def newton_raphson_chunk(
 
     # Backpropagation needs one update at the solution to see how it depends on the problem
     if R.requires_grad:
-        x = x - solver.solve(J, R)
+        x = x - solver.solve(J, R - R.detach())
 
     if not torch.all(torch.isfinite(nR)) or (
         torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index 4e271d6..825a09b 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -71,7 +71,7 @@ def newton_raphson_bt(
 
     # Backpropagation needs one update at the solution to see how it depends on the problem
     if R.requires_grad:
-        x = x - solver(J, R)
+        x = x - solver(J, R - R.detach())
 
     if not torch.all(torch.isfinite(nR)) or (
         torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
@@ -127,7 +127,7 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
 
     # Backpropagation needs one update at the solution to see how it depends on the problem
     if R.requires_grad:
-        x = x - solver(J, R)
+        x = x - solver(J, R - R.detach())
 
     if not torch.all(torch.isfinite(nR)) or (
         torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
-- 
2.43.0


From 8695e37db451a35a6145a2dedc72d9125c393210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 23/39] fix: time series interpolation of a single test drops
 the batch dimension

---
 pyoptmat/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 87496a0..c9d98ae 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -339,7 +339,7 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
         )
 
         if squeeze:
-            return poss[locs].squeeze(-1).t()
+            return poss[locs].reshape(t.shape[0])
 
         return poss[locs].reshape(t.shape).t()
 
-- 
2.43.0


From bf6fd39bf54505e6506ff2478dcfece4262956df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 24/39] fix: data sets with whole number times cannot be loaded

---
 pyoptmat/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index eb5f123..2437121 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -126,7 +126,7 @@ def load_results(xdata, device=torch.device("cpu")):
     data[2, :, control == 0] = strain[:, control == 0]
     data[2, :, control == 1] = stress[:, control == 1]
 
-    results = torch.empty_like(time)
+    results = torch.empty_like(stress)
     results[:, control == 0] = stress[:, control == 0]
     results[:, control == 1] = strain[:, control == 1]
 
-- 
2.43.0


From e037ae7bd12eff70bad93da9f1f1656fff6053d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 25/39] fix: inference overwrites the prior means it starts
 from

---
 pyoptmat/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/optimize.py b/pyoptmat/optimize.py
index c9d80e9..4aecf9c 100644
--- a/pyoptmat/optimize.py
+++ b/pyoptmat/optimize.py
@@ -432,8 +432,9 @@ class HierarchicalStatisticalModel(PyroModule):
                 self.scale_scale_priors,
             ):
                 dim = loc_loc.dim()
+                # The parameters store must not share its memory with the priors
                 loc_param = pyro.param(
-                    var + self.loc_suffix + self.param_suffix, loc_loc
+                    var + self.loc_suffix + self.param_suffix, loc_loc.detach().clone()
                 )
                 scale_param = pyro.param(
                     var + self.scale_suffix + self.param_suffix,
-- 
2.43.0


From 985d7bbcca1eee38a9ab54efae16705b91ea406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 26/39] fix: training a deterministic model overwrites the
 caller's initial values

---
 pyoptmat/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/optimize.py b/pyoptmat/optimize.py
index 4aecf9c..e2fc63b 100644
--- a/pyoptmat/optimize.py
+++ b/pyoptmat/optimize.py
@@ -134,7 +134,7 @@ class DeterministicModel(Module):
         # Add all the parameters
         self.params = names
         for name, ic in zip(names, ics):
-            setattr(self, name, Parameter(ic))
+            setattr(self, name, Parameter(ic.detach().clone()))
 
     def get_params(self):
         """
-- 
2.43.0


From fccb5bc2da01882fc3c63242b7f43f4fb6e43742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 27/39] fix: batched finite differences fail for functions of
 or with matrix values

---
 pyoptmat/utility.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index c9d98ae..b58f994 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -150,18 +150,17 @@ def batch_differentiate(fn, x0, eps=1.0e-6, nbatch_dim=1):
 
     for i2 in np.ndindex(s2):
         dx = torch.zeros_like(x0)
-        inc = torch.abs(x0[..., i2]) * eps
+        ind = (Ellipsis,) + i2
+        inc = torch.abs(x0[ind]) * eps
         inc[inc < eps] = eps
-        dx[..., i2] = inc
+        dx[ind] = inc
 
         x = x0 + dx
         if squeeze2:
             x = x.squeeze(-1)
 
         v1 = fn(x).reshape(bs + s1)
-        d[..., i2] = (v1 - v0).unsqueeze(-1).expand(d[..., i2].shape) / inc.unsqueeze(
-            -2
-        ).expand(d[..., i2].shape)
+        d[ind] = (v1 - v0) / inc.reshape(bs + (1,) * len(s1))
 
     if squeeze1 and squeeze2:
         d = d.squeeze(-1).squeeze(-1)
-- 
2.43.0


From fa152b4c4c54a011a819ddb85f762c976784049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 28/39] fix: finite difference derivative of scalar functions
 is NaN at zero

---
 pyoptmat/utility.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index b58f994..9cf45ea 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -257,6 +257,7 @@ def differentiate(fn, x0, eps=1.0e-6):
         dx = torch.zeros_like(x0)
         if len(s2) == 0:
             dx = torch.abs(x0) * eps
+            dx[dx == 0] = eps
         else:
             inc = torch.abs(x0[..., i2]) * eps
             inc[inc < eps] = eps
-- 
2.43.0


From 063a9c7ef71db2db84140a066a01d18a56010955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:48 +0000
Subject: [PATCH 29/39] fix: backpropagation is NaN if a rate has an infinite
 second derivative on the way

---
 pyoptmat/chunktime.py | 29 ++++++++-------
 pyoptmat/solvers.py   | 84 +++++++++++++++++++++++--------------------
 2 files changed, 62 insertions(+), 51 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index ddcb37a..2812f12 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -40,21 +40,24 @@ def newton_raphson_chunk(
     Returns:
       torch.tensor:         solution to system of equations
     """
-    x = x0
-    R, J = fn(x)
-
-    nR = torch.norm(R, dim=-1)
-    nR0 = nR
-    i = 0
-
-    while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
-        x = x - solver.solve(J, R)
+    # Only the solution matters to backpropagation, not the path of the iteration
+    with torch.no_grad():
+        x = x0.detach()
         R, J = fn(x)
-        nR = torch.norm(R, dim=-1)
-        i += 1
 
-    # Backpropagation needs one update at the solution to see how it depends on the problem
-    if R.requires_grad:
+        nR = torch.norm(R, dim=-1)
+        nR0 = nR
+        i = 0
+
+        while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
+            x = x - solver.solve(J, R)
+            R, J = fn(x)
+            nR = torch.norm(R, dim=-1)
+            i += 1
+
+    # One update at the solution shows how it depends on the problem
+    if torch.is_grad_enabled():
+        R, _ = fn(x)
         x = x - solver.solve(J, R - R.detach())
 
     if not torch.all(torch.isfinite(nR)) or (
diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index 825a09b..897ed60 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -42,36 +42,40 @@ def newton_raphson_bt(
     else:
         raise ValueError(f"Unknown linear solver type {linsolver}")
 
-    x = x0
-    R, J = fn(x)
-
-    nR = torch.norm(R, dim=-1)
-    nR0 = nR
-    i = 0
-
-    alpha = torch.ones_like(x0)
-    while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
-        dx = solver(J, R)
-        nR_prev = nR.detach().clone()
-        nR = nR_prev
-        k = 0
-        alpha = torch.ones_like(x0)
-        while True:
-            xp = x - alpha * dx
-            R, J = fn(xp)
-            nR = torch.norm(R, dim=-1)
+    # Only the solution matters to backpropagation, not the path of the iteration
+    with torch.no_grad():
+        x = x0.detach()
+        R, J = fn(x)
 
-            if torch.all(nR_prev > nR) or k > max_bt:
-                break
-            alpha[(nR - nR_prev) > atol] /= 2.0
-            k += 1
+        nR = torch.norm(R, dim=-1)
+        nR0 = nR
+        i = 0
 
-        x = xp
-        i += 1
+        alpha = torch.ones_like(x0)
+        while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
+            dx = solver(J, R)
+            nR_prev = nR.detach().clone()
+            nR = nR_prev
+            k = 0
+            alpha = torch.ones_like(x0)
+            while True:
+                xp = x - alpha * dx
+                R, J = fn(xp)
+                nR = torch.norm(R, dim=-1)
+
+                if torch.all(nR_prev > nR) or k > max_bt:
+                    break
+                alpha[(nR - nR_prev) > atol] /= 2.0
+                k += 1
+
+            x = xp
+            i += 1
 
-    # Backpropagation needs one update at the solution to see how it depends on the problem
-    if R.requires_grad:
+    # One update at the solution shows how it depends on the problem
+    if torch.is_grad_enabled():
+        R, Jg = fn(x)
         x = x - solver(J, R - R.detach())
+        J = Jg
 
     if not torch.all(torch.isfinite(nR)) or (
         torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
@@ -112,22 +116,26 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
     else:
         raise ValueError(f"Unknown linear solver type {linsolver}")
 
-    x = x0
-    R, J = fn(x)
-
-    nR = torch.norm(R, dim=-1)
-    nR0 = nR
-    i = 0
-
-    while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
-        x = x - solver(J, R)
+    # Only the solution matters to backpropagation, not the path of the iteration
+    with torch.no_grad():
+        x = x0.detach()
         R, J = fn(x)
+
         nR = torch.norm(R, dim=-1)
-        i += 1
+        nR0 = nR
+        i = 0
+
+        while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
+            x = x - solver(J, R)
+            R, J = fn(x)
+            nR = torch.norm(R, dim=-1)
+            i += 1
 
-    # Backpropagation needs one update at the solution to see how it depends on the problem
-    if R.requires_grad:
+    # One update at the solution shows how it depends on the problem
+    if torch.is_grad_enabled():
+        R, Jg = fn(x)
         x = x - solver(J, R - R.detach())
+        J = Jg
 
     if not torch.all(torch.isfinite(nR)) or (
         torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
-- 
2.43.0


From 7da1445528fc03c3a04e5600c977e0e778a99d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 30/39] fix: backpropagation through static recovery is NaN for
 zero history

---
 pyoptmat/hardening.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/hardening.py b/pyoptmat/hardening.py
index 6492e2e..51addbe 100644
--- a/pyoptmat/hardening.py
+++ b/pyoptmat/hardening.py
@@ -386,8 +386,8 @@ class Theta0RecoveryVoceIsotropicHardeningModel(IsotropicHardeningModel):
         return torch.unsqueeze(
             self.theta(T) * (1.0 - h[..., 0] / self.tau(T)) * torch.abs(ep)
             + self.r1(T)
-            * (self.R0(T) - h[..., 0])
-            * torch.abs(self.R0(T) - h[..., 0]) ** (self.r2(T) - 1.0),
+            * torch.sign(self.R0(T) - h[..., 0])
+            * torch.abs(self.R0(T) - h[..., 0]) ** self.r2(T),
             -1,
         )
 
@@ -642,7 +642,7 @@ class FAKinematicHardeningModel(KinematicHardeningModel):
         return torch.unsqueeze(
             self.C(T) * torch.ones_like(h[..., 0]) * ep
             - self.g(T) * h[..., 0] * torch.abs(ep)
-            - self.b(T) * torch.abs(h[..., 0]) ** (self.r(T) - 1.0) * h[..., 0],
+            - self.b(T) * torch.abs(h[..., 0]) ** self.r(T) * torch.sign(h[..., 0]),
             -1,
         )
 
@@ -1069,7 +1069,7 @@ class ChabocheHardeningModelRecovery(KinematicHardeningModel):
         return (
             self.C(T)[None, ...] * ep[..., None]
             - self.g(T)[None, ...] * h * torch.abs(ep)[..., None]
-            - self.b(T)[None, ...] * torch.abs(h) ** (self.r(T)[None, ...] - 1.0) * h
+            - self.b(T)[None, ...] * torch.abs(h) ** self.r(T)[None, ...] * torch.sign(h)
         ).reshape(h.shape)
 
     def dhistory_rate_dstress(self, s, h, t, ep, T, e):
-- 
2.43.0


From 18aaccea93fe4d1494cd5430c573d8c39798f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:36 +0000
Subject: [PATCH 31/39] fix: legacy finite differences of vector and matrix
 functions are wrong

---
 pyoptmat/utility.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 9cf45ea..54bfd18 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -207,18 +207,21 @@ def new_differentiate(fn, x0, eps=1.0e-6):
 
     v0 = v0.reshape(fs1)
 
+    x0 = x0.reshape(fs2)
+
     for i2 in np.ndindex(s2):
-        dx = torch.zeros_like(x0.reshape(fs2))
-        inc = torch.abs(x0[..., i2]) * eps
+        dx = torch.zeros_like(x0)
+        ind = (Ellipsis,) + i2
+        inc = torch.abs(x0[ind]) * eps
         inc[inc < eps] = eps
-        dx[..., i2] = inc
+        dx[ind] = inc
 
         if flatten:
-            v1 = fn(x0 + dx[:, 0]).reshape(fs1)
+            v1 = fn((x0 + dx)[:, 0]).reshape(fs1)
         else:
             v1 = fn(x0 + dx).reshape(fs1)
 
-        d[:, :, i2] = torch.unsqueeze(((v1 - v0) / inc), 2)
+        d[ind] = (v1 - v0) / inc.reshape((nbatch,) + (1,) * len(s1))
 
     return d
 
@@ -259,19 +262,18 @@ def differentiate(fn, x0, eps=1.0e-6):
             dx = torch.abs(x0) * eps
             dx[dx == 0] = eps
         else:
-            inc = torch.abs(x0[..., i2]) * eps
+            ind = (Ellipsis,) + i2
+            inc = torch.abs(x0[ind]) * eps
             inc[inc < eps] = eps
-            dx[..., i2] = inc
+            dx[ind] = inc
         v1 = fn(x0 + dx)
 
         if len(s1) == 0 and len(s2) == 0:
             d = (v1 - v0) / dx
         elif len(s2) == 0:
-            d[...] = (v1 - v0) / dx.reshape(v1.shape)
-        elif len(s1) == 0:
-            d[..., i2] = ((v1 - v0) / dx.reshape(v1.shape))[:, None]
+            d[...] = (v1 - v0) / dx.reshape((nbatch,) + (1,) * len(s1))
         else:
-            d[..., i2] = ((v1 - v0) / dx)[..., None]
+            d[ind] = (v1 - v0) / inc.reshape((nbatch,) + (1,) * len(s1))
 
     return d
 
-- 
2.43.0


From 59f86341f1279da49425775970bbfaaff1a83498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:36 +0000
Subject: [PATCH 32/39] fix: finite difference of scalar functions loses all
 digits close to zero

---
 pyoptmat/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 54bfd18..5ce098f 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -260,7 +260,7 @@ def differentiate(fn, x0, eps=1.0e-6):
         dx = torch.zeros_like(x0)
         if len(s2) == 0:
             dx = torch.abs(x0) * eps
-            dx[dx == 0] = eps
+            dx[dx < eps] = eps
         else:
             ind = (Ellipsis,) + i2
             inc = torch.abs(x0[ind]) * eps
-- 
2.43.0


From 99c81973d076bc5732a1d7416f92238613630392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:18 +0000
Subject: [PATCH 33/39] fix: variance plots of small sets of samples fail

---
 pyoptmat/utility.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 5ce098f..4aa0eaf 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -77,13 +77,13 @@ def visualize_variance(strain, stress_true, stress_calc, alpha=0.05):
       alpha (float): alpha value for shading
     """
     ntrue = stress_true.shape[1]
-    max_true, _ = stress_true.kthvalue(int(ntrue * (1 - alpha)), dim=1)
-    min_true, _ = stress_true.kthvalue(int(ntrue * alpha), dim=1)
+    max_true, _ = stress_true.kthvalue(max(int(ntrue * (1 - alpha)), 1), dim=1)
+    min_true, _ = stress_true.kthvalue(max(int(ntrue * alpha), 1), dim=1)
     mean_true = torch.mean(stress_true, 1)
 
     npred = stress_calc.shape[1]
-    max_pred, _ = stress_calc.kthvalue(int(npred * (1 - alpha)), dim=1)
-    min_pred, _ = stress_calc.kthvalue(int(npred * alpha), dim=1)
+    max_pred, _ = stress_calc.kthvalue(max(int(npred * (1 - alpha)), 1), dim=1)
+    min_pred, _ = stress_calc.kthvalue(max(int(npred * alpha), 1), dim=1)
     mean_pred = torch.mean(stress_calc, 1)
 
     plt.figure()
-- 
2.43.0


From 5812a74a140dfc1e76dba56a44a6cc6a97af9ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:22 +0000
Subject: [PATCH 34/39] fix: block operators cannot be multiplied in other
 memory layouts

---
 pyoptmat/chunktime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 2812f12..9e7fedb 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -464,16 +464,16 @@ class BidiagonalForwardOperator(BidiagonalOperator):
         """
         # Reshaped v
         vp = (
-            v.view(self.sbat, self.nblk, self.sblk)
+            v.reshape(self.sbat, self.nblk, self.sblk)
             .transpose(0, 1)
             .reshape(self.sbat * self.nblk, self.sblk)
             .unsqueeze(-1)
         )
 
         # Actual calculation
-        b = torch.bmm(self.A.view(-1, self.sblk, self.sblk), vp)
+        b = torch.bmm(self.A.reshape(-1, self.sblk, self.sblk), vp)
         b[self.sbat :] += torch.bmm(
-            self.B.view(-1, self.sblk, self.sblk), vp[: -self.sbat]
+            self.B.reshape(-1, self.sblk, self.sblk), vp[: -self.sbat]
         )
 
         return (
-- 
2.43.0


From c62c3df53cda401072ea9abc292e02b5d2e37202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:04 +0000
Subject: [PATCH 35/39] fix: backpropagation loses second derivatives

---
 pyoptmat/chunktime.py |  7 ++++---
 pyoptmat/solvers.py   | 14 ++++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 9e7fedb..0ac0829 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -55,10 +55,11 @@ def newton_raphson_chunk(
             nR = torch.norm(R, dim=-1)
             i += 1
 
-    # One update at the solution shows how it depends on the problem
+    # Each update at the solution adds one order of derivatives with respect to the problem
     if torch.is_grad_enabled():
-        R, _ = fn(x)
-        x = x - solver.solve(J, R - R.detach())
+        for _ in range(2):
+            R, _ = fn(x)
+            x = x - solver.solve(J, R - R.detach())
 
     if not torch.all(torch.isfinite(nR)) or (
         torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index 897ed60..4c3f1aa 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -71,10 +71,11 @@ def newton_raphson_bt(
             x = xp
             i += 1
 
-    # One update at the solution shows how it depends on the problem
+    # Each update at the solution adds one order of derivatives with respect to the problem
     if torch.is_grad_enabled():
-        R, Jg = fn(x)
-        x = x - solver(J, R - R.detach())
+        for _ in range(2):
+            R, Jg = fn(x)
+            x = x - solver(J, R - R.detach())
         J = Jg
 
     if not torch.all(torch.isfinite(nR)) or (
@@ -131,10 +132,11 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
             nR = torch.norm(R, dim=-1)
             i += 1
 
-    # One update at the solution shows how it depends on the problem
+    # Each update at the solution adds one order of derivatives with respect to the problem
     if torch.is_grad_enabled():
-        R, Jg = fn(x)
-        x = x - solver(J, R - R.detach())
+        for _ in range(2):
+            R, Jg = fn(x)
+            x = x - solver(J, R - R.detach())
         J = Jg
 
     if not torch.all(torch.isfinite(nR)) or (
-- 
2.43.0


From b08ad5ad35bbc6a63bec98b32d07daa7bcd90755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:30 +0000
Subject: [PATCH 36/39] fix: parameters listed repeatedly were counted several
 times in the adjoint gradient

---
 pyoptmat/ode.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index 28a3c3f..c0f9d39 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -663,9 +663,8 @@ def odeint_adjoint(
     # Grab parameters for backward
     if extra_params is None:
         extra_params = []
-    adjoint_params = tuple(
-        p for p in tuple(func.parameters()) + tuple(extra_params) if p.requires_grad
-    )
+    all_params = tuple(func.parameters()) + tuple(extra_params)
+    adjoint_params = tuple(p for p in dict.fromkeys(all_params) if p.requires_grad)
 
     solver = FixedGridBlockSolver(
         func, y0, scheme=int_methods[method], adjoint_params=adjoint_params, **kwargs
-- 
2.43.0


From 0548f0a44d2099931a812b2753fc22141b1f25d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:29 +0000
Subject: [PATCH 37/39] fix: perfect plasticity cannot be simulated on other
 devices

The derivative of the (empty) history rate was always on the CPU and mixed
with tensors on the device of the model.
---
 pyoptmat/flowrules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index 88f9e29..0fe868e 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -1123,7 +1123,9 @@ class PerfectViscoplasticity(FlowRule):
                                                 derivative of the history rate
                                                 with respect to history
         """
-        return torch.zeros_like(h), torch.zeros(h.shape + h.shape[-1:])
+        return torch.zeros_like(h), torch.zeros(
+            h.shape + h.shape[-1:], device=h.device
+        )
 
 
 class IsoKinViscoplasticity(FlowRule):
-- 
2.43.0


From c2eaadcd3bae691c6ac4eda977fd74acb81bc9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:29 +0000
Subject: [PATCH 38/39] fix: creep tests are generated on the CPU whatever the
 device of their description

make_tension_tests generates them on the device of its arguments.
---
 pyoptmat/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index 2437121..a104889 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -344,7 +344,7 @@ def make_creep_tests(
     nbatch = stress.shape[0]
     nsteps = nsteps_load + nsteps_hold
 
-    stresses = torch.zeros(nsteps, nbatch)
+    stresses = torch.zeros(nsteps, nbatch, device=stress.device)
     times = torch.zeros_like(stresses)
     temperatures = torch.zeros_like(stresses)
 
-- 
2.43.0


From 6592775fd5c0d374163abd165b370af088e98af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:29 +0000
Subject: [PATCH 39/39] fix: differentiate returns derivatives on the CPU

The result now is on the device of the argument, as for batch_differentiate.
---
 pyoptmat/utility.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 4aa0eaf..d1e2394 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -248,13 +248,13 @@ def differentiate(fn, x0, eps=1.0e-6):
     s2 = x0.shape[1:]
 
     if len(s1) == 0 and len(s2) == 0:
-        d = torch.empty((nbatch,))
+        d = torch.empty((nbatch,), device=x0.device)
     elif len(s1) == 0:
-        d = torch.empty((nbatch,) + s2)
+        d = torch.empty((nbatch,) + s2, device=x0.device)
     elif len(s2) == 0:
-        d = torch.empty((nbatch,) + s1)
+        d = torch.empty((nbatch,) + s1, device=x0.device)
     else:
-        d = torch.empty((nbatch,) + s1 + s2)
+        d = torch.empty((nbatch,) + s1 + s2, device=x0.device)
 
     for i2 in np.ndindex(s2):
         dx = torch.zeros_like(x0)
-- 
2.43.0

