From b826e6ba254ca8d65cb7bbf73c3fa1fad4c4063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 01/18] fix: second stage coefficient of RK53 (row sum must be
 c)

---
 qmat/qcoeff/butcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 9d46bdb..616e964 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -215,7 +215,7 @@ class RK53(RK):
     aliases = ["ERK53"]
     A = [[0, 0, 0, 0, 0],
          [1/7, 0, 0, 0, 0],
-         [0, 3/13, 0, 0, 0],
+         [0, 3/16, 0, 0, 0],
          [0, 0, 1/3, 0, 0],
          [0, 0, 0, 2/3, 0]]
     b = [1/4, 0, 0, 0, 3/4]
-- 
2.43.0


From a86c03c454db5fd31d6edace81c26b1806eb8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 02/18] fix: pad the embedded weights of Runge-Kutta methods
 too

---
 qmat/qcoeff/butcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 616e964..4e2c0b3 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -51,6 +51,8 @@ class RK(QGenerator):
             if padding in ["LEFT", "BOTH"]:
                 self.c = np.array([0] + self.c.tolist())
                 self.b = np.array([0] + self.b.tolist())
+                if self.b2 is not None:
+                    self.b2 = np.array([0] + self.b2.tolist())
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[1:, 1:] = self.A
@@ -59,6 +61,8 @@ class RK(QGenerator):
             if padding in ["RIGHT", "BOTH"]:
                 self.c = np.array(self.c.tolist() + [1])
                 self.b = np.array(self.b.tolist() + [0])
+                if self.b2 is not None:
+                    self.b2 = np.array(self.b2.tolist() + [0])
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[:-1, :-1] = self.A
-- 
2.43.0


From bca755fd5d4659739b3923eb05b45700fbf0c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 03/18] fix: parallel time-stepping approximations with tLeft
 != 0

---
 qmat/qdelta/timestepping.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 5b64d15..cb2459f 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -118,7 +118,7 @@ class BEPAR(TimeStepping):
     aliases = ["IEpar"]
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes) - self.tLeft
+        return np.diag(self.nodes - self.tLeft)
 
 
 @register
@@ -126,11 +126,11 @@ class TRAPAR(TimeStepping):
     """Approximation based on parallel Trapezoidal Rule from zero to nodes"""
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes/2) - self.tLeft
+        return np.diag((self.nodes - self.tLeft)/2)
 
     @property
     def dTau(self)->np.ndarray:
-        return self.nodes/2.0 - self.tLeft
+        return (self.nodes - self.tLeft)/2.0
 
 
 @register
-- 
2.43.0


From 3a1bee66301ed2a2e3604deb64f622231623c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 04/18] fix: SOE approximation starts from tLeft

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index cb2459f..7c38018 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -141,7 +141,7 @@ class SOE(TimeStepping):
 
     def computeQDelta(self, k=None):
         QDelta, M = self.zeros, self.nodes.size
-        times = [0] + self.nodes.tolist()
+        times = [self.tLeft] + self.nodes.tolist()
         alpha = [
             LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]
             for i in range(M-1)
-- 
2.43.0


From d72e40e444291fc0ce4a950968632230af6b7585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 05/18] fix: take tLeft from qGen in time-stepping
 approximations

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 7c38018..b94769b 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -58,7 +58,7 @@ class TimeStepping(QDeltaGenerator):
         required to instantiate the :math:`Q_\Delta`-generator
         """
         assert isinstance(qGen, QGenerator), "qGen parameter must be a QGenerator object"
-        return {"nodes": qGen.nodes}
+        return {"nodes": qGen.nodes, "tLeft": getattr(qGen, "tLeft", 0)}
 
     @property
     def size(self)->int:
-- 
2.43.0


From d4675be61f9abdd11d7d5cf5d93af2ef334ca68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 06/18] fix: right boundary of a collocation method is tRight

---
 qmat/qcoeff/collocation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index ff7dcee..2d93050 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -89,9 +89,13 @@ class Collocation(QGenerator):
                  for i in range(nodes.shape[0])]
         return self.approx.getIntegrationMatrix(pInts)
 
+    @property
+    def rightIsNode(self)->bool:
+        return self.nodes[-1] == self.tRight
+
     @property
     def hCoeffs(self)->np.ndarray:
-        return self.approx.getInterpolationMatrix([1]).ravel()
+        return self.approx.getInterpolationMatrix([self.tRight]).ravel()
 
     @property
     def order(self)->int:
-- 
2.43.0


From 1925faf285ac3aa18f6977300409bf07607ca19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 07/18] fix: only boundary nodes are set to the bounds of the
 interval

---
 qmat/qcoeff/collocation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index 2d93050..80726b9 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -56,8 +56,8 @@ class Collocation(QGenerator):
         nodes += tLeft
         self.tLeft, self.tRight = tLeft, tRight
         # Safety when bound should be included ...
-        if np.allclose(tLeft, nodes[0]): nodes[0] = tLeft
-        if np.allclose(tRight, nodes[-1]): nodes[-1] = tRight
+        if quadType in ["LOBATTO", "RADAU-LEFT"]: nodes[0] = tLeft
+        if quadType in ["LOBATTO", "RADAU-RIGHT"]: nodes[-1] = tRight
         self._nodes = nodes
 
         # Lagrange approximation based on nodes
-- 
2.43.0


From 65bbf8d5be2d0a482155adc576316d6a2db4c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 08/18] fix: genQDeltaCoeffs does not change the list of its
 caller

---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 6aebf15..61286be 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -274,7 +274,7 @@ def genQDeltaCoeffs(qDeltaType, nSweeps=None, form="Z2N", dTau=False, **params):
             # complete with additional sweeps
             assert nSweeps >= len(qDeltaType), \
                 f"nSweeps ({nSweeps}) is lower than list length for qDeltaType ({qDeltaType})"
-            qDeltaType += [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
+            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
         else:
             raise ValueError(f"bad value of nSweep {nSweeps}")
     else:
-- 
2.43.0


From 8938bda7c8109c9535084685ca4677838d20cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 09/18] fix: QDeltaGenerator.genCoeffs does not return its
 internal storage

---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 61286be..7114cf7 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -196,7 +196,7 @@ class QDeltaGenerator(object):
             If `dTau=True`, returns a tuple `(QDelta, dTau)`.
         """
         if form == "Z2N":
-            gen = lambda k, copy=False: self.getQDelta(k, copy)
+            gen = lambda k, copy=True: self.getQDelta(k, copy)
         elif form == "N2N":
             gen = lambda k, copy=None: self.getSDelta(k)
         else:
-- 
2.43.0


From 062480db66d5e6d9f11866cbfa4838d70e35a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 10/18] fix: QGenerator.genCoeffs does not return its internal
 storage

---
 qmat/qcoeff/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/__init__.py b/qmat/qcoeff/__init__.py
index dc58760..8390eef 100644
--- a/qmat/qcoeff/__init__.py
+++ b/qmat/qcoeff/__init__.py
@@ -117,7 +117,7 @@ class QGenerator(object):
             mat = self.S
         else:
             raise ValueError(f"form must be Z2N or N2N, not {form}")
-        out = [self.nodes, self.weights, mat]
+        out = [np.array(self.nodes), np.array(self.weights), np.array(mat)]
         if embedded:
             out[1] = np.vstack([out[1], self.weightsEmbedded])
         if hCoeffs:
-- 
2.43.0


From ca6c064d8f41f33c099f59cde9f83229793e6123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 11/18] fix: sparse interpolation reuses a line only for
 identical points

---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ab84845..2d78c62 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -584,7 +584,7 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
             closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])
             closestPoints = inPoints[closestPointsIdx] - outPoints[i]
 
-        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.allclose(closestPoints, lastClosestPoints):
+        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.array_equal(closestPoints, lastClosestPoints):
             interpolationLine = lastInterpolationLine
         else:
             interpolator = LagrangeApproximation(points = closestPoints)
-- 
2.43.0


From d639e884b637f9ab6625c973590eb502b10bb9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 12/18] fix: AUTO weights fall back to STABLE when a product
 overflows

---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 2d78c62..70c5ccb 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -211,7 +211,7 @@ class LagrangeApproximation(object):
             return invProd
 
         if weightComputation == 'AUTO':
-            with np.errstate(divide='raise', over='ignore'):
+            with np.errstate(divide='raise', over='raise', under='raise'):
                 try:
                     invProd = analytic(diffs)
                 except FloatingPointError:
-- 
2.43.0


From 91d3ac32df3db660f8b4f030745a70bff37cca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 13/18] fix: LU approximation uses the factorization without
 pivoting

---
 qmat/qdelta/algebraic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qmat/qdelta/algebraic.py b/qmat/qdelta/algebraic.py
index a9fd10d..cebd919 100644
--- a/qmat/qdelta/algebraic.py
+++ b/qmat/qdelta/algebraic.py
@@ -17,7 +17,6 @@ Examples
 >>> QDelta = gen.getQDelta()
 """
 import numpy as np
-import scipy.linalg as spl
 
 from qmat.qdelta import QDeltaGenerator, register
 from qmat.utils.num import lduFactorization
@@ -46,8 +45,12 @@ class LU(QDeltaGenerator):
     """LU approximation from `[Weiser, 2014] <https://link.springer.com/article/10.1007/s10543-014-0540-y>`_"""
 
     def computeQDelta(self, k=None):
-        _, _, U = spl.lu(self.Q.T)
-        return U.T
+        # Gaussian elimination without pivoting : Q^T = L U
+        U = self.Q.T.copy()
+        for i in range(self.size-1):
+            if U[i, i] != 0:
+                U[i+1:] -= np.outer(U[i+1:, i]/U[i, i], U[i])
+        return np.tril(U.T)
 
 
 @register
-- 
2.43.0


From c8cea1c4b0139b9e5718c5b501d5d96ace27fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 14/18] fix: time-stepping QDelta with integer nodes

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index b94769b..8d46d54 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -37,7 +37,7 @@ class TimeStepping(QDeltaGenerator):
         Additional parameters given in a generic call, ignored by this class.
     """
     def __init__(self, nodes, tLeft=0, **kwargs):
-        nodes = np.asarray(nodes)
+        nodes = np.asarray(nodes, dtype=float)
         deltas = nodes.copy()
         deltas[0] = nodes[0] - tLeft
         deltas[1:] = np.ediff1d(nodes)
-- 
2.43.0


From a31d5d988b2d7529e53951b6e5efea8660ced9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:53 +0000
Subject: [PATCH 15/18] fix: compute the barycentric weights for the points
 used, when they are distinct but not ordered

---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 70c5ccb..dc3ae14 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -175,7 +175,7 @@ class LagrangeApproximation(object):
             self.points = self.uniquePoints = points
             self._handleDuplicates = self._passThrough
 
-        points = uniques  # require unique points for weight computation
+        points = self.uniquePoints  # require unique points for weight computation
 
         diffs = points[:, None] - points[None, :]
         diffs[np.diag_indices_from(diffs)] = 1
-- 
2.43.0


From cf4af991f3ae75e188806e44d245f08d91d4ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:18 +0000
Subject: [PATCH 16/18] fix: the STABLE fallback of AUTO weights may underflow

---
 qmat/lagrange.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index dc3ae14..a352f51 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -211,11 +211,11 @@ class LagrangeApproximation(object):
             return invProd
 
         if weightComputation == 'AUTO':
-            with np.errstate(divide='raise', over='raise', under='raise'):
-                try:
+            try:
+                with np.errstate(divide='raise', over='raise', under='raise'):
                     invProd = analytic(diffs)
-                except FloatingPointError:
-                    invProd = logScale(diffs)
+            except FloatingPointError:
+                invProd = logScale(diffs)
         elif weightComputation == 'FAST':
             invProd = analytic(diffs)
         elif weightComputation == 'STABLE':
-- 
2.43.0


From 999cb579a13f523f34d80aa2dbaaa33c3c40f793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:05 +0000
Subject: [PATCH 17/18] fix: periodic sparse interpolation from grids outside
 of [0, gridPeriod)

---
 qmat/lagrange.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index a352f51..08498e2 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -565,6 +565,9 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
 
     assert order <= len(inPoints), f'Cannot interpolate {len(inPoints)} to order {order}! Please reduce order'
 
+    if gridPeriod > 0:
+        inPoints = inPoints % gridPeriod
+
     A = sp.lil_matrix((len(outPoints), len(inPoints)))
     lastInterpolationLine = None
     lastClosestPoints = None
-- 
2.43.0


From 63d71c2cb796ee93eac6e9a6851b395c0717b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:31 +0000
Subject: [PATCH 18/18] fix: extrapolation matrices for integer nodes or times
 do not overflow

---
 qmat/utils/num.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmat/utils/num.py b/qmat/utils/num.py
index bbc6a94..9605af1 100644
--- a/qmat/utils/num.py
+++ b/qmat/utils/num.py
@@ -107,7 +107,7 @@ def getExtrapolationMatrix(nodes, times, pOrder=None):
         Extrapolation matrix, that can be used on any node values.
     """
     if pOrder is None: pOrder = np.size(nodes)-1
-    X = np.vander(nodes, N=pOrder+1, increasing=True)
-    T = np.vander(times, N=pOrder+1, increasing=True)
+    X = np.vander(np.asarray(nodes, dtype=float), N=pOrder+1, increasing=True)
+    T = np.vander(np.asarray(times, dtype=float), N=pOrder+1, increasing=True)
     P = T @ np.linalg.solve(X.T @ X, X.T)
     return P
\ No newline at end of file
-- 
2.43.0

