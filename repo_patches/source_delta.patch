From 4ce7840cafafc14e9c61dc103e1bce6c40c7e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 01/13] fix: discrete run keeps its own copy of the best point

cutting_plane_optim_q stored the evaluation point by reference; when an
oracle reports the continuous center itself, later in-place updates of the
search space changed the returned best point.
---
 src/ellalgo/cutting_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/cutting_plane.py b/src/ellalgo/cutting_plane.py
index aa022eb..109d7e1 100644
--- a/src/ellalgo/cutting_plane.py
+++ b/src/ellalgo/cutting_plane.py
@@ -276,7 +276,7 @@ def cutting_plane_optim_q(
         cut, x_q, gamma1, more_alt = omega.assess_optim_q(space_q.xc(), gamma, retry)
         if gamma1 is not None:  # Improved objective value
             gamma = gamma1
-            x_best = x_q
+            x_best = copy.copy(x_q)  # x_q may be the space's own center
         # Update search space with quantized cut
         status = space_q.update_q(cut)
         if status == CutStatus.Success:
-- 
2.43.0


From 15deba2b07f53fbfb1a70e80bc3f09026c0b3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 02/13] fix: EllStable refuses a zero gradient like Ell

A central cut with a zero gradient silently turned the center into NaN.
---
 src/ellalgo/ell_stable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index d0786f1..d1399ee 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -193,6 +193,8 @@ class EllStable(SearchSpace[ArrayType]):
             CutStatus.Success
         """
         g, beta = cut
+        if np.all(g == 0.0):
+            raise ValueError("Gradient cannot be a zero vector.")
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
         inv_lower_g = g.copy()  # initially
-- 
2.43.0


From 81d92760db7019f82e582ecf45fbf694be7efe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 03/13] fix: immediate scaling of EllStable must not scale the
 factor L

With no_defer_trick the whole factor storage was multiplied by kappa,
including the off-diagonal entries of the unit triangular factor, so the
represented ellipsoid was wrong from the second cut on.
---
 src/ellalgo/ell_stable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index d1399ee..b2d72ec 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -255,6 +255,7 @@ class EllStable(SearchSpace[ArrayType]):
         self._kappa *= delta
 
         if self.no_defer_trick:
-            self._mq *= self._kappa
+            for i in range(self._ndim):
+                self._mq[i, i] *= self._kappa  # scale inv(D) only, L is unit
             self._kappa = 1.0
         return status
-- 
2.43.0


From 6c4cc3100b85fb5b55a7c133115798caea3d39fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:00 +0000
Subject: [PATCH 04/13] fix: EllStable truncated intermediate values for
 integer gradients

The forward substitution worked in place on a copy of the gradient, so an
integer gradient rounded every intermediate value towards zero.
---
 src/ellalgo/ell_stable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index b2d72ec..a28aa2e 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -197,7 +197,7 @@ class EllStable(SearchSpace[ArrayType]):
             raise ValueError("Gradient cannot be a zero vector.")
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
-        inv_lower_g = g.copy()  # initially
+        inv_lower_g = g.astype(float)  # initially (a copy)
 
         for j in range(self._ndim - 1):
             for i in range(j + 1, self._ndim):
@@ -240,7 +240,7 @@ class EllStable(SearchSpace[ArrayType]):
         if mu == 0.0:
             return status
         oldt = omega / mu  # initially
-        v = g.copy()
+        v = g.astype(float)
         for j in range(self._ndim):
             p = v[j]
             temp = inv_diag_inv_lower_g[j]
-- 
2.43.0


From 6360d6d868d900bcfa9f63d74eedf1adcf0070d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:04 +0000
Subject: [PATCH 05/13] fix: search spaces keep their own copy of the center

Ell and EllStable stored the caller's array and then updated it in place,
so the caller's initial point was silently overwritten and two searches
started from the same array interfered.
---
 src/ellalgo/ell.py        | 4 ++--
 src/ellalgo/ell_stable.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index ca45145..e34ad7f 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -74,7 +74,7 @@ class Ell(SearchSpace[ArrayType]):
         """
         ndim = len(x_center)
         self.helper = EllCalc(ndim)
-        self._xc = x_center
+        self._xc = np.array(x_center, dtype=float)  # own copy, updated in place
         self._tsq = 0.0
         if isinstance(val, (int, float)):
             # Case 1: val is a scalar (kappa), create identity matrix
@@ -101,7 +101,7 @@ class Ell(SearchSpace[ArrayType]):
         Args:
             x_center: The new center point for the ellipsoid
         """
-        self._xc = x_center
+        self._xc = np.array(x_center, dtype=float)
 
     def tsq(self) -> float:
         """
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index a28aa2e..72335d0 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -68,7 +68,7 @@ class EllStable(SearchSpace[ArrayType]):
         """
         ndim = len(x_center)
         self.helper = EllCalc(ndim)
-        self._xc = x_center
+        self._xc = np.array(x_center, dtype=float)  # own copy, updated in place
         self._tsq = 0.0
         self._ndim = ndim
         if isinstance(val, (int, float)):
@@ -92,7 +92,7 @@ class EllStable(SearchSpace[ArrayType]):
         :param x_center: The parameter `x_center` is of type `ArrayType`
         :type x_center: ArrayType
         """
-        self._xc = x_center
+        self._xc = np.array(x_center, dtype=float)
 
     def tsq(self) -> float:
         """
-- 
2.43.0


From 512c88fe9b509a9d1fe9fb997445019fddacdbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:04 +0000
Subject: [PATCH 06/13] fix: integer diagonal shapes

An integer array of initial axes made an integer shape matrix: EllStable
rounded its factors to integers on every update, Ell failed with a casting
error.
---
 src/ellalgo/ell.py        | 2 +-
 src/ellalgo/ell_stable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index e34ad7f..719ddb1 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -83,7 +83,7 @@ class Ell(SearchSpace[ArrayType]):
         else:
             # Case 2: val is a list/array, create diagonal matrix
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(np.asarray(val, dtype=float))
 
     def xc(self) -> ArrayType:
         """
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 72335d0..b1e20d9 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -76,7 +76,7 @@ class EllStable(SearchSpace[ArrayType]):
             self._mq = np.eye(ndim)
         else:
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(np.asarray(val, dtype=float))
 
     def xc(self) -> ArrayType:
         """
-- 
2.43.0


From 21c90ca33fbb7203fe7f9adeca49818256997797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:04 +0000
Subject: [PATCH 07/13] fix: parallel cuts beyond or around the ellipsoid

A slab lying entirely beyond the ellipsoid (beta0 <= beta1 < -tau) was
answered Success with a negative size factor, and a wide slab around the
center (tsq + n*beta0*beta1 <= 0) was answered Success by the biased update
with an ellipsoid that excluded feasible points.
---
 src/ellalgo/ell_calc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ellalgo/ell_calc.py b/src/ellalgo/ell_calc.py
index a667d89..46ba05d 100644
--- a/src/ellalgo/ell_calc.py
+++ b/src/ellalgo/ell_calc.py
@@ -158,6 +158,10 @@ class EllCalc:
         b1sq = beta1 * beta1
         if beta1 > 0.0 and tsq <= b1sq:
             return self.calc_bias_cut(beta0, tsq)
+        if beta1 < 0.0 and tsq < b1sq:
+            return (CutStatus.NoSoln, None)  # the slab misses the ellipsoid
+        if tsq + self._n_f * beta0 * beta1 <= 0.0:
+            return (CutStatus.Success, (0.0, 0.0, 1.0))  # too wide to shrink it
         return (
             CutStatus.Success,
             self.helper.calc_parallel_bias_cut(beta0, beta1, tsq),
@@ -251,6 +255,8 @@ class EllCalc:
         b1sq = beta1 * beta1
         if beta1 > 0.0 and tsq <= b1sq:
             return self.calc_bias_cut_q(beta0, tsq)
+        if beta1 < 0.0 and tsq < b1sq:
+            return (CutStatus.NoSoln, None)  # the slab misses the ellipsoid
         b0b1 = beta0 * beta1
         eta = tsq + self._n_f * b0b1
         if eta <= 0.0:  # for discrete optimization
-- 
2.43.0


From 790c2209bd2ef1e5ebeeac073b842488f21f5435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:04 +0000
Subject: [PATCH 08/13] fix: conjugate gradient accepts an initial guess that
 solves the system

A zero right-hand side, or an exact initial guess, raised 'did not
converge'.
---
 src/ellalgo/conjugate_gradient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ellalgo/conjugate_gradient.py b/src/ellalgo/conjugate_gradient.py
index c0b6321..c12d210 100644
--- a/src/ellalgo/conjugate_gradient.py
+++ b/src/ellalgo/conjugate_gradient.py
@@ -65,6 +65,9 @@ def conjugate_gradient(
     direction = residual.copy()  # Initial search direction is set to residual
     residual_norm_sq = np.dot(residual, residual)  # Squared norm of residual
 
+    if np.sqrt(residual_norm_sq) < tol:
+        return solution  # the initial guess already solves the system
+
     for iteration in range(max_iter):
         A_direction = np.dot(A, direction)  # Matrix-vector product for line search
         direction_dot_A_direction = np.dot(direction, A_direction)
-- 
2.43.0


From b8208f75f41c4db4ebd20f4875b88584924e31d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:04 +0000
Subject: [PATCH 09/13] fix: explicit LMI oracle failed for integer matrices

Subtracting in place from a copy of an integer constant matrix raised a
casting error; the lazy oracle accepts the same problem.
---
 src/ellalgo/oracles/lmi_old_oracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ellalgo/oracles/lmi_old_oracle.py b/src/ellalgo/oracles/lmi_old_oracle.py
index e9b6a10..7e65845 100644
--- a/src/ellalgo/oracles/lmi_old_oracle.py
+++ b/src/ellalgo/oracles/lmi_old_oracle.py
@@ -76,8 +76,7 @@ class LMIOldOracle(OracleFeas):
             True
         """
         n = len(xc)
-        A = self.mat_f0.copy()
-        A -= sum(self.mat_f[k] * xc[k] for k in range(n))
+        A = self.mat_f0 - sum(self.mat_f[k] * xc[k] for k in range(n))
         if not self.ldlt_mgr.factorize(A):
             ep = self.ldlt_mgr.witness()
             g = np.array([self.ldlt_mgr.sym_quad(self.mat_f[i]) for i in range(n)])
-- 
2.43.0


From aa3943032afd28103a25b4cda95be4eb2292b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:53 +0000
Subject: [PATCH 10/13] fix: conjugate gradient accepts an integer initial
 guess

---
 src/ellalgo/conjugate_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/conjugate_gradient.py b/src/ellalgo/conjugate_gradient.py
index c12d210..ea4170e 100644
--- a/src/ellalgo/conjugate_gradient.py
+++ b/src/ellalgo/conjugate_gradient.py
@@ -58,7 +58,7 @@ def conjugate_gradient(
             dimension
         )  # Initialize solution vector with zeros if no initial guess
     else:
-        solution = x0.copy()  # Use provided initial guess
+        solution = np.array(x0, dtype=float)  # Use provided initial guess
 
     # Initial residual calculation: residual = b - A*solution
     residual = b - np.dot(A, solution)
-- 
2.43.0


From 4734e261fe19c62f848797c57349cc9bd9a9b7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:29 +0000
Subject: [PATCH 11/13] fix: adaptors without options share one mutable options
 object

---
 src/ellalgo/cutting_plane.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/cutting_plane.py b/src/ellalgo/cutting_plane.py
index 109d7e1..625b2e2 100644
--- a/src/ellalgo/cutting_plane.py
+++ b/src/ellalgo/cutting_plane.py
@@ -346,7 +346,10 @@ class BSearchAdaptor(OracleBS):
     """
 
     def __init__(
-        self, omega: OracleFeas, space: SearchSpace, options: Options = Options()
+        self,
+        omega: OracleFeas,
+        space: SearchSpace,
+        options: Optional[Options] = None,
     ) -> None:
         """
         :param omega: g-parameterized feasibility oracle
@@ -355,7 +358,8 @@ class BSearchAdaptor(OracleBS):
         """
         self.omega = omega  # Gamma-sensitive feasibility oracle
         self.space = space  # Search space for subproblems
-        self.options = options  # Subproblem solver parameters
+        # Subproblem solver parameters (own defaults: the object may be modified)
+        self.options = options if options is not None else Options()
 
     @property
     def x_best(self) -> Any:
-- 
2.43.0


From eb96f80443c3ff0f9fb82481fe54c04c83054309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:27 +0000
Subject: [PATCH 12/13] fix: EllStable fails when a cut leaves no width along
 its gradient

---
 src/ellalgo/ell_stable.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index b1e20d9..4fcaee3 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -236,17 +236,19 @@ class EllStable(SearchSpace[ArrayType]):
 
         # rank-one update: 3*n + (n-1)*n/2
         # r = self._sigma / omega
-        mu = sigma / (1.0 - sigma)
-        if mu == 0.0:
+        if sigma == 0.0:
             return status
-        oldt = omega / mu  # initially
+        # initially (a cut that leaves no width along g has sigma = 1)
+        oldt = 0.0 if sigma == 1.0 else omega / (sigma / (1.0 - sigma))
         v = g.astype(float)
         for j in range(self._ndim):
             p = v[j]
             temp = inv_diag_inv_lower_g[j]
             newt = oldt + p * temp
-            beta2 = temp / newt
-            self._mq[j, j] *= oldt / newt  # update invD
+            beta2 = 0.0
+            if newt != 0.0:
+                beta2 = temp / newt
+                self._mq[j, j] *= oldt / newt  # update invD
             for k in range(j + 1, self._ndim):
                 v[k] -= self._mq[j, k]
                 self._mq[k, j] += beta2 * v[k]
-- 
2.43.0


From 8cae8c138683cda78dee133672fa3928698693ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:48 +0000
Subject: [PATCH 13/13] fix: a search space that lost its width along a
 gradient refuses the cut

---
 src/ellalgo/ell.py        | 2 +-
 src/ellalgo/ell_stable.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index 719ddb1..86242e6 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -238,7 +238,7 @@ class Ell(SearchSpace[ArrayType]):
         grad_t = self._mq @ grad  # n^2 multiplications
         # Calculate grad^T * (M * grad)
         omega = grad.dot(grad_t)  # n multiplications
-        if omega == 0.0:
+        if omega <= 0.0:  # no width left along g (or lost to rounding)
             return CutStatus.NoEffect
         # Update tsq measure
         self._tsq = self._kappa * omega
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 4fcaee3..ebe3305 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -214,6 +214,8 @@ class EllStable(SearchSpace[ArrayType]):
         # calculate omega: n
         gg_t = inv_lower_g * inv_diag_inv_lower_g
         omega = sum(gg_t)
+        if omega <= 0.0:  # no width left along g (or lost to rounding)
+            return CutStatus.NoEffect
 
         self._tsq = self._kappa * omega  # need for helper
 
-- 
2.43.0

