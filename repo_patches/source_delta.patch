From 74ca7a9ee2a79398ebf1de5b7f7adeb00380d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:49 +0000
Subject: [PATCH 01/13] fix: search spaces own their center instead of mutating
 the caller's array

---
 src/ellalgo/ell.py        | 4 ++--
 src/ellalgo/ell_stable.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index ca45145..c87cdc8 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -74,7 +74,7 @@ class Ell(SearchSpace[ArrayType]):
         """
         ndim = len(x_center)
         self.helper = EllCalc(ndim)
-        self._xc = x_center
+        self._xc = np.array(x_center, dtype=float)  # own copy: updated in place
         self._tsq = 0.0
         if isinstance(val, (int, float)):
             # Case 1: val is a scalar (kappa), create identity matrix
@@ -101,7 +101,7 @@ class Ell(SearchSpace[ArrayType]):
         Args:
             x_center: The new center point for the ellipsoid
         """
-        self._xc = x_center
+        self._xc = np.array(x_center, dtype=float)
 
     def tsq(self) -> float:
         """
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index d0786f1..1da0085 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -68,7 +68,7 @@ class EllStable(SearchSpace[ArrayType]):
         """
         ndim = len(x_center)
         self.helper = EllCalc(ndim)
-        self._xc = x_center
+        self._xc = np.array(x_center, dtype=float)  # own copy: updated in place
         self._tsq = 0.0
         self._ndim = ndim
         if isinstance(val, (int, float)):
@@ -92,7 +92,7 @@ class EllStable(SearchSpace[ArrayType]):
         :param x_center: The parameter `x_center` is of type `ArrayType`
         :type x_center: ArrayType
         """
-        self._xc = x_center
+        self._xc = np.array(x_center, dtype=float)
 
     def tsq(self) -> float:
         """
-- 
2.43.0


From 6d868f5a8c119e00350f7ccf13b55a74ea40d3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:49 +0000
Subject: [PATCH 02/13] fix: EllStable no_defer_trick scales only the diagonal
 factor, not L

---
 src/ellalgo/ell_stable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 1da0085..4c9091f 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -253,6 +253,8 @@ class EllStable(SearchSpace[ArrayType]):
         self._kappa *= delta
 
         if self.no_defer_trick:
-            self._mq *= self._kappa
+            # only the diagonal carries the scale; L below it must stay unit-lower
+            for i in range(self._ndim):
+                self._mq[i, i] *= self._kappa
             self._kappa = 1.0
         return status
-- 
2.43.0


From 3abfb24eb76443b122454fc7a974e23fa45880f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:49 +0000
Subject: [PATCH 03/13] fix: EllStable rejects zero gradients and degenerate
 directions like Ell

---
 src/ellalgo/ell_stable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 4c9091f..0ecf9f2 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -193,6 +193,8 @@ class EllStable(SearchSpace[ArrayType]):
             CutStatus.Success
         """
         g, beta = cut
+        if np.all(g == 0.0):
+            raise ValueError("Gradient cannot be a zero vector.")
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
         inv_lower_g = g.copy()  # initially
@@ -212,6 +214,8 @@ class EllStable(SearchSpace[ArrayType]):
         # calculate omega: n
         gg_t = inv_lower_g * inv_diag_inv_lower_g
         omega = sum(gg_t)
+        if omega == 0.0:
+            return CutStatus.NoEffect
 
         self._tsq = self._kappa * omega  # need for helper
 
-- 
2.43.0


From 23044a916de28674a33b7fa6e8aa0d106a7c86bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:49 +0000
Subject: [PATCH 04/13] fix: EllStable accepts flat cuts (sigma == 1) instead
 of dividing by zero

---
 src/ellalgo/ell_stable.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 0ecf9f2..90f73ce 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -238,15 +238,16 @@ class EllStable(SearchSpace[ArrayType]):
 
         # rank-one update: 3*n + (n-1)*n/2
         # r = self._sigma / omega
-        mu = sigma / (1.0 - sigma)
-        if mu == 0.0:
+        if sigma == 0.0:
             return status
-        oldt = omega / mu  # initially
+        oldt = omega * (1.0 - sigma) / sigma  # initially (0 if the cut is flat)
         v = g.copy()
         for j in range(self._ndim):
             p = v[j]
             temp = inv_diag_inv_lower_g[j]
             newt = oldt + p * temp
+            if newt == 0.0:  # flat cut, nothing accumulated yet
+                continue
             beta2 = temp / newt
             self._mq[j, j] *= oldt / newt  # update invD
             for k in range(j + 1, self._ndim):
-- 
2.43.0


From a5bf73c72002a14d3033ec8bc7cbf3b5feb4035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:49 +0000
Subject: [PATCH 05/13] fix: conjugate_gradient returns an initial guess that
 already satisfies tol

---
 src/ellalgo/conjugate_gradient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ellalgo/conjugate_gradient.py b/src/ellalgo/conjugate_gradient.py
index c0b6321..3386e54 100644
--- a/src/ellalgo/conjugate_gradient.py
+++ b/src/ellalgo/conjugate_gradient.py
@@ -65,6 +65,10 @@ def conjugate_gradient(
     direction = residual.copy()  # Initial search direction is set to residual
     residual_norm_sq = np.dot(residual, residual)  # Squared norm of residual
 
+    # The initial guess may already solve the system
+    if np.sqrt(residual_norm_sq) < tol:
+        return solution
+
     for iteration in range(max_iter):
         A_direction = np.dot(A, direction)  # Matrix-vector product for line search
         direction_dot_A_direction = np.dot(direction, A_direction)
-- 
2.43.0


From 8cb3151b2d391417bfb5eb18bcc251f7b0b5dbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:49 +0000
Subject: [PATCH 06/13] fix: parallel cuts lying wholly outside the ellipsoid
 report NoSoln

---
 src/ellalgo/ell_calc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ellalgo/ell_calc.py b/src/ellalgo/ell_calc.py
index a667d89..deb2103 100644
--- a/src/ellalgo/ell_calc.py
+++ b/src/ellalgo/ell_calc.py
@@ -156,6 +156,8 @@ class EllCalc:
         if beta1 < beta0:
             return (CutStatus.NoSoln, None)  # no sol'n
         b1sq = beta1 * beta1
+        if beta1 < 0.0 and tsq < b1sq:
+            return (CutStatus.NoSoln, None)  # no sol'n
         if beta1 > 0.0 and tsq <= b1sq:
             return self.calc_bias_cut(beta0, tsq)
         return (
@@ -249,6 +251,8 @@ class EllCalc:
         if beta1 < beta0:
             return (CutStatus.NoSoln, None)  # no sol'n
         b1sq = beta1 * beta1
+        if beta1 < 0.0 and tsq < b1sq:
+            return (CutStatus.NoSoln, None)  # no sol'n
         if beta1 > 0.0 and tsq <= b1sq:
             return self.calc_bias_cut_q(beta0, tsq)
         b0b1 = beta0 * beta1
-- 
2.43.0


From eb1ad566a645049f4fcf650a1920568788b34471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:49 +0000
Subject: [PATCH 07/13] fix: cutting_plane_feas returns a snapshot, not the
 live center

---
 src/ellalgo/cutting_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/cutting_plane.py b/src/ellalgo/cutting_plane.py
index aa022eb..472e67e 100644
--- a/src/ellalgo/cutting_plane.py
+++ b/src/ellalgo/cutting_plane.py
@@ -117,7 +117,7 @@ def cutting_plane_feas(
         # Evaluate current solution
         cut = omega.assess_feas(space.xc())
         if cut is None:  # Found feasible point
-            return space.xc(), niter
+            return copy.copy(space.xc()), niter
         # Update search space with new constraint
         status = space.update_bias_cut(cut)
         if status != CutStatus.Success or space.tsq() < options.tolerance:
-- 
2.43.0


From c4d559f1c6fe24f5ead2c06e1047ae4c50a20836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:46 +0000
Subject: [PATCH 08/13] fix: LMI0Oracle implements the OracleFeas interface
 like its siblings

---
 src/ellalgo/oracles/lmi0_oracle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/oracles/lmi0_oracle.py b/src/ellalgo/oracles/lmi0_oracle.py
index f516e4e..54cdb52 100644
--- a/src/ellalgo/oracles/lmi0_oracle.py
+++ b/src/ellalgo/oracles/lmi0_oracle.py
@@ -11,12 +11,13 @@ from typing import List, Optional, Tuple
 
 import numpy as np
 
+from ellalgo.cutting_plane import OracleFeas
 from ellalgo.oracles.ldlt_mgr import LDLTMgr
 
 Cut = Tuple[np.ndarray, float]
 
 
-class LMI0Oracle:
+class LMI0Oracle(OracleFeas):
     """
     Oracle for the Linear Matrix Inequality (LMI) constraint: F(x) ⪰ 0.
 
-- 
2.43.0


From 11105e086321168f82c9cd32793d5a73c68affff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:52 +0000
Subject: [PATCH 09/13] fix: EllStable does not truncate the factors for
 integer gradients

---
 src/ellalgo/ell_stable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 90f73ce..e4ac8d8 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -197,7 +197,7 @@ class EllStable(SearchSpace[ArrayType]):
             raise ValueError("Gradient cannot be a zero vector.")
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
-        inv_lower_g = g.copy()  # initially
+        inv_lower_g = np.array(g, dtype=float)  # initially (g may hold integers)
 
         for j in range(self._ndim - 1):
             for i in range(j + 1, self._ndim):
@@ -241,7 +241,7 @@ class EllStable(SearchSpace[ArrayType]):
         if sigma == 0.0:
             return status
         oldt = omega * (1.0 - sigma) / sigma  # initially (0 if the cut is flat)
-        v = g.copy()
+        v = np.array(g, dtype=float)
         for j in range(self._ndim):
             p = v[j]
             temp = inv_diag_inv_lower_g[j]
-- 
2.43.0


From 77f2fa8ad80b06ab027e5f2818b03938943d04db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:52 +0000
Subject: [PATCH 10/13] fix: search spaces accept integer radii

---
 src/ellalgo/ell.py        | 2 +-
 src/ellalgo/ell_stable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index c87cdc8..57dd9c4 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -83,7 +83,7 @@ class Ell(SearchSpace[ArrayType]):
         else:
             # Case 2: val is a list/array, create diagonal matrix
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(np.asarray(val, dtype=float))
 
     def xc(self) -> ArrayType:
         """
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index e4ac8d8..a5be07b 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -76,7 +76,7 @@ class EllStable(SearchSpace[ArrayType]):
             self._mq = np.eye(ndim)
         else:
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(np.asarray(val, dtype=float))
 
     def xc(self) -> ArrayType:
         """
-- 
2.43.0


From 8fe68d861327223a30d7ab52aee3421bb54b4878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:22 +0000
Subject: [PATCH 11/13] fix: LMIOldOracle accepts integer constant matrices
 like LMIOracle

---
 src/ellalgo/oracles/lmi_old_oracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ellalgo/oracles/lmi_old_oracle.py b/src/ellalgo/oracles/lmi_old_oracle.py
index e9b6a10..7e65845 100644
--- a/src/ellalgo/oracles/lmi_old_oracle.py
+++ b/src/ellalgo/oracles/lmi_old_oracle.py
@@ -76,8 +76,7 @@ class LMIOldOracle(OracleFeas):
             True
         """
         n = len(xc)
-        A = self.mat_f0.copy()
-        A -= sum(self.mat_f[k] * xc[k] for k in range(n))
+        A = self.mat_f0 - sum(self.mat_f[k] * xc[k] for k in range(n))
         if not self.ldlt_mgr.factorize(A):
             ep = self.ldlt_mgr.witness()
             g = np.array([self.ldlt_mgr.sym_quad(self.mat_f[i]) for i in range(n)])
-- 
2.43.0


From a5043f1eae9444429e23540e947d536517a5b370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:22 +0000
Subject: [PATCH 12/13] fix: conjugate_gradient accepts an integer initial
 guess

---
 src/ellalgo/conjugate_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/conjugate_gradient.py b/src/ellalgo/conjugate_gradient.py
index 3386e54..5f6419a 100644
--- a/src/ellalgo/conjugate_gradient.py
+++ b/src/ellalgo/conjugate_gradient.py
@@ -58,7 +58,7 @@ def conjugate_gradient(
             dimension
         )  # Initialize solution vector with zeros if no initial guess
     else:
-        solution = x0.copy()  # Use provided initial guess
+        solution = np.array(x0, dtype=float)  # Own copy of the provided initial guess
 
     # Initial residual calculation: residual = b - A*solution
     residual = b - np.dot(A, solution)
-- 
2.43.0


From 422e47eb3b74f7090c2cd462f401ed7f0124630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:57 +0000
Subject: [PATCH 13/13] fix: cutting_plane_optim_q keeps a snapshot of the
 evaluation point

---
 src/ellalgo/cutting_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/cutting_plane.py b/src/ellalgo/cutting_plane.py
index 472e67e..bc72224 100644
--- a/src/ellalgo/cutting_plane.py
+++ b/src/ellalgo/cutting_plane.py
@@ -276,7 +276,7 @@ def cutting_plane_optim_q(
         cut, x_q, gamma1, more_alt = omega.assess_optim_q(space_q.xc(), gamma, retry)
         if gamma1 is not None:  # Improved objective value
             gamma = gamma1
-            x_best = x_q
+            x_best = copy.copy(x_q)  # x_q may be the live center
         # Update search space with quantized cut
         status = space_q.update_q(cut)
         if status == CutStatus.Success:
-- 
2.43.0

