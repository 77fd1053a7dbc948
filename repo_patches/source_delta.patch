From d919d437316b99de0d5f5db36c8e85123df03aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 01/29] fix: make TensorProductShape picklable and copyable

---
 modepy/shapes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 24f9363..6888a09 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -374,6 +374,10 @@ class TensorProductShape(Shape):
         super().__init__(dim)
         object.__setattr__(self, "bases", bases)
 
+    def __getnewargs__(self) -> tuple[Any, ...]:
+        # NOTE: ensures TensorProductShape is picklable
+        return (self.bases,)
+
     @property
     @override
     def nvertices(self) -> int:
-- 
2.43.0


From b7251809b2d449c75ea5442d1c8c173e395d20dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 02/29] fix: make QN picklable and copyable

---
 modepy/spaces.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modepy/spaces.py b/modepy/spaces.py
index e328c54..ae5aefd 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -272,6 +272,11 @@ class QN(TensorProductSpace):
     def __init__(self, spatial_dim: int, order: int) -> None:
         super().__init__((PN(1, order),) * spatial_dim)
 
+    @override
+    def __getnewargs__(self):
+        # Ensures QN is picklable
+        return (self.spatial_dim, self.order)
+
     @property
     @override
     def order(self):
-- 
2.43.0


From 7b56b689e69a50af34bf4eb3512e9ac14903995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 03/29] fix: accept a single tensor product factor in
 TensorProductShape/Space

---
 modepy/shapes.py | 5 +++++
 modepy/spaces.py | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 6888a09..95e7cc4 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -491,6 +491,11 @@ class Hypercube(TensorProductShape):
             return Shape.__new__(cls)
 
     def __init__(self, dim: int) -> None:
+        if isinstance(dim, tuple):
+            # NOTE: 'TensorProductShape((hypercube,))' returns *hypercube* from
+            # '__new__', so Python calls '__init__' on it again with those bases
+            return
+
         super().__init__((Simplex(1),) * dim)
 
     def __getnewargs__(self) -> tuple[Any, ...]:
diff --git a/modepy/spaces.py b/modepy/spaces.py
index ae5aefd..960ad11 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -269,7 +269,14 @@ class QN(TensorProductSpace):
         else:
             return FunctionSpace.__new__(cls)
 
-    def __init__(self, spatial_dim: int, order: int) -> None:
+    def __init__(self, spatial_dim: int, order: int | None = None) -> None:
+        if isinstance(spatial_dim, tuple):
+            # NOTE: 'TensorProductSpace((qn,))' returns *qn* from '__new__', so
+            # Python calls '__init__' on it again with those bases
+            return
+        if order is None:
+            raise TypeError("missing required argument: 'order'")
+
         super().__init__((PN(1, order),) * spatial_dim)
 
     @override
-- 
2.43.0


From a3ad338aca7a5e0d98e6b32d9e4bcdaf64fa5555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 04/29] fix: tessellate non-hypercube tensor product shapes in
 submesh_for_shape

---
 modepy/shapes.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 95e7cc4..49f046f 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -692,6 +692,31 @@ def submesh_for_hypercube(
         shape: TensorProductShape,
         node_tuples: Sequence[tuple[int, ...]]
         ) -> Sequence[tuple[int, ...]]:
+    result: list[tuple[int, ...]] = []
+    node_dict = {ituple: idx for idx, ituple in enumerate(node_tuples)}
+
+    if any(s.dim > 1 for s in shape.bases):
+        # A non-segment factor is not tessellated by shifted copies of itself
+        # (e.g. half the triangles are upside down), so use its own submesh.
+        base_elements: list[Sequence[tuple[tuple[int, ...], ...]]] = []
+        d = 0
+        for s in shape.bases:
+            base_tuples = tuple(dict.fromkeys(nt[d:d+s.dim] for nt in node_tuples))
+            base_elements.append([
+                tuple(base_tuples[i] for i in el)
+                for el in submesh_for_shape(s, base_tuples)])
+            d += s.dim
+
+        from itertools import product
+        for els in product(*base_elements[::-1]):
+            # vertices are ordered first factor fastest, like 'node_tuples'
+            with contextlib.suppress(KeyError):
+                result.append(tuple(
+                    node_dict[sum(vertex[::-1], ())]
+                    for vertex in product(*els)))
+
+        return result
+
     from modepy.spaces import space_for_shape
     space = space_for_shape(shape, order=1)
 
@@ -700,9 +725,6 @@ def submesh_for_hypercube(
 
     from pytools import add_tuples
 
-    result: list[tuple[int, ...]] = []
-    node_dict = {ituple: idx for idx, ituple in enumerate(node_tuples)}
-
     for current in node_tuples:
         with contextlib.suppress(KeyError):
             result.append(tuple(
-- 
2.43.0


From 610f0e51813f438e58701edb5e162a0ba659573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 05/29] fix: normalize the zero-dimensional orthonormal basis
 function

---
 modepy/modes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 9374a63..6258d5a 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -859,8 +859,7 @@ def monomial_basis_for_space(space: FunctionSpace, shape: Shape) -> Basis:
 
 def zerod_basis(x: ArrayF) -> ArrayF:
     assert len(x) == 0
-    x_sub = np.ones(x.shape[1:], x.dtype)
-    return 1 + x_sub
+    return np.ones(x.shape[1:], x.dtype)
 
 
 # {{{ PN bases
-- 
2.43.0


From 7036ce793455b5f78f269a180f6c2340fb36c7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 06/29] fix: support differing orders per base in
 quadrature_for_space

---
 modepy/quadrature/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 8786cde..3ee1af2 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -347,12 +347,16 @@ def _quadrature_for_tp(
     if space.spatial_dim == 0:
         quad: Quadrature = ZeroDimensionalQuadrature()
     else:
-        quad = TensorProductQuadrature([
+        quads = [
             quadrature_for_space(sp, shp)
             for sp, shp in zip(space.bases, shape.bases, strict=True)
-            ])
+            ]
+        # NOTE: the orders may differ between bases, so each factor only needs
+        # to be exact for its own base
+        assert all(quad.exact_to >= getattr(s, "order", 0)
+                   for quad, s in zip(quads, space.bases, strict=True))
+        quad = TensorProductQuadrature(quads)
 
-    assert all(quad.exact_to >= getattr(s, "order", 0) for s in space.bases)
     return quad
 
 # }}}
-- 
2.43.0


From f05664149a4e9bdd6b1c81f1a4905281e6412f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 07/29] fix: honor force_dim_axis in jacobi_gauss_lobatto_nodes
 for N=0

---
 modepy/quadrature/jacobi_gauss.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 5f4ba4f..0376c4a 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -279,12 +279,9 @@ def jacobi_gauss_lobatto_nodes(
     """
 
     x: np.ndarray[tuple[int, ...], np.dtype[np.floating]] = np.zeros((N + 1,))
-    if N == 0:
-        x[0] = 0
-        return x
-
-    x[0] = -1
-    x[-1] = 1
+    if N > 0:
+        x[0] = -1
+        x[-1] = 1
 
     if N > 1:
         quad = JacobiGaussQuadrature(alpha + 1, beta + 1, N - 2,
-- 
2.43.0


From a3c0a2a4823cf35d55c59d0da68938071f8421db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 08/29] fix: raise NotImplementedError for mismatched shapes in
 quadrature_for_space

---
 modepy/quadrature/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 3ee1af2..611def7 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -339,7 +339,7 @@ def _quadrature_for_tp(
             shape: TensorProductShape
         ) -> Quadrature:
     if not isinstance(shape, TensorProductShape):
-        raise NotImplementedError((type(space).__name__, type(shape).__name))
+        raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
     if space.spatial_dim != shape.dim:
         raise ValueError("spatial dimensions of shape and space must match")
-- 
2.43.0


From 66d4518a16a35f6aeba7306abb2eeb330be0d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 09/29] fix: compute correct weights for non-Legendre
 JacobiGaussLobattoQuadrature

---
 modepy/quadrature/jacobi_gauss.py | 64 +++++++++----------------------
 1 file changed, 19 insertions(+), 45 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 0376c4a..e1687d7 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -327,59 +327,33 @@ class JacobiGaussLobattoQuadrature(Quadrature):
             force_dim_axis: bool = False) -> None:
         nodes = jacobi_gauss_lobatto_nodes(alpha, beta, N, backend)
 
-        from math import gamma
-
-        from modepy.modes import binom, scaled_jacobi
-
-        # Formula numbers refer to https://doi.org/10.1023/A:1016689830453
         if N + 1 < 2:
             raise ValueError("Lobatto rules must have at least two nodes")
 
-        # Alternate reference via chebfun, using same source paper but
-        # using the beta function in implementation:
-        # https://github.com/chebfun/chebfun/blob/db207bc9f48278ca4def15bf90591bfa44d0801d/lobpts.m
-
-        n = N - 1
-
-        # FIXME: Recurrences might be better than just typing up the formulas.
+        from math import gamma
 
-        # (3.10)
-        common_factor = (
-            2**(alpha + beta + 1)
-            * binom(n + alpha + 1, n)
-            / binom(n + beta + 1, n)
-            / binom(n + alpha + beta + 2, n)
-            * gamma(alpha + 2)
-            / gamma(alpha + beta + 3)
-        )
-        edge_weight = (
-            common_factor
-            * gamma(beta + 1)
-        )
-
-        # (4.7)
         int_nodes = nodes[1:-1]
-        frac = (
-            4*(n+alpha+1) * (n+beta+1) + (alpha-beta)**2
-        ) / (
-            2*n + alpha + beta + 2
-        )**2
-
-        int_weights = (
-            common_factor
-            * gamma(beta + 2)
-
-            # FIXME: This is part of the paper, but tests only pass without it:
-            # / (n + 1)**2
+        int_weights = np.zeros_like(int_nodes)
+        if N > 1:
+            # The interior nodes are those of the Gauss rule for the weight
+            # (1 - x)**(alpha + 1) * (1 + x)**(beta + 1), which absorbs the factor
+            # (1 - x**2) of polynomials that vanish at both endpoints.
+            int_quad = JacobiGaussQuadrature(
+                alpha + 1, beta + 1, N - 2, backend=backend, force_dim_axis=True)
+            int_weights = int_quad.weights / (1 - int_nodes**2)
+
+        # The endpoint weights follow from exactness for 1 and x.
+        mass = (
+            2**(alpha + beta + 1)
+            * gamma(alpha + 1) * gamma(beta + 1) / gamma(alpha + beta + 2))
+        first_moment = mass * (beta - alpha) / (alpha + beta + 2)
 
-            / (frac - int_nodes**2)
-            * (1 - int_nodes**2)
-            / scaled_jacobi(alpha, beta, n + 1, int_nodes)**2
-        )
+        edge_sum = mass - np.sum(int_weights)
+        edge_diff = first_moment - int_weights @ int_nodes
 
         weights = np.empty_like(nodes)
-        weights[0] = edge_weight
-        weights[-1] = edge_weight
+        weights[0] = (edge_sum - edge_diff) / 2
+        weights[-1] = (edge_sum + edge_diff) / 2
         weights[1:-1] = int_weights
 
         if force_dim_axis:
-- 
2.43.0


From e88372977c32024e36849cd1ed8e4fac87088ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 10/29] fix: include the factor in Monomial.hypercube_integral

---
 modepy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 0f5c0c5..92a8b41 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -121,7 +121,7 @@ class Monomial:
 
         return reduce(
                 lambda integral, n: integral * 1 / (n + 1),
-                self.exponents, 1.0)
+                self.exponents, 1.0 * self.factor)
 
     def diff(self, coordinate: int) -> Monomial:
         diff_exp = list(self.exponents)
-- 
2.43.0


From f8dda5a8ca95925a66d56e497aa8040fcf39b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 11/29] fix: do not alias the rule table in
 WitherdenVincentQuadrature

---
 modepy/quadrature/witherden_vincent.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/witherden_vincent.py b/modepy/quadrature/witherden_vincent.py
index add2d29..bd4ea60 100644
--- a/modepy/quadrature/witherden_vincent.py
+++ b/modepy/quadrature/witherden_vincent.py
@@ -23,6 +23,8 @@ OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 THE SOFTWARE.
 """
 
+import numpy as np
+
 from modepy.quadrature import Quadrature, QuadratureRuleUnavailable
 
 
@@ -64,5 +66,6 @@ class WitherdenVincentQuadrature(Quadrature):
         except KeyError:
             raise QuadratureRuleUnavailable(f"Unsupported order: {order}") from None
 
-        super().__init__(rule["points"], rule["weights"],
+        # NOTE: copied so that modifying a rule does not modify the shared table
+        super().__init__(np.array(rule["points"]), np.array(rule["weights"]),
                          exact_to=rule["quad_degree"])
-- 
2.43.0


From d6da897849434c123eb484f8ba0685b6071a9dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 12/29] fix: support combinations of differing number and size
 in linearly_combine

---
 modepy/quadrature/construction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 6a906a3..7b143de 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -128,8 +128,8 @@ def linearly_combine(
         return LinearCombinationIntegrand(coefficients, functions)
 
     basis: list[NodalFunction] = []
-    n = len(lcfunctions)
-    matrix = np.zeros((n, n), dtype=np.complex128)
+    nfunctions = max((len(f.functions) for f in lcfunctions), default=0)
+    matrix = np.zeros((len(lcfunctions), nfunctions), dtype=np.complex128)
     for i, f in enumerate(lcfunctions):
         ncommon = min(len(basis), len(f.functions))
         if basis[:ncommon]  != f.functions[:ncommon]:
-- 
2.43.0


From ae5e7583d1ce18d94bea11480fd2aeab3dd5a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 13/29] fix: pick the right half line in quadgk for reversed
 semi-infinite intervals

---
 modepy/quadrature/kronrod.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index 35e98de..9a55990 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -486,10 +486,14 @@ def _do_quadgk(
         if inf1 or inf2:
             if inf1 and inf2:
                 g, sm = _transform_both_inf(f, s)
-            elif inf1:
-                g, sm = _transform_semi_inf_neg(f, s2, s)
             else:
-                g, sm = _transform_semi_inf_pos(f, s1, s)
+                # the sign of the infinite end point (not which of the two it is)
+                # determines the half line
+                s0, si = (s2, s1) if inf1 else (s1, s2)
+                if si < 0:
+                    g, sm = _transform_semi_inf_neg(f, s0, s)
+                else:
+                    g, sm = _transform_semi_inf_pos(f, s0, s)
             return _do_quadgk(g, sm, n, abstol, reltol, maxevals)
 
     x, w, gw = kronrod(n)
-- 
2.43.0


From 718ae0c582b6a2ef7f11b821f13641f325f90cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 14/29] fix: use the comparable infinity in
 ZeroDimensionalQuadrature

---
 modepy/quadrature/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 611def7..64bc33e 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -205,8 +205,7 @@ class ZeroDimensionalQuadrature(Quadrature):
     def __init__(self) -> None:
         super().__init__(np.empty((0, 1), dtype=np.float64),
                          np.ones((1,), dtype=np.float64),
-                         # NOTE: exact_to is expected to be an int
-                         exact_to=np.inf)
+                         exact_to=inf)
 
 
 class Transformed1DQuadrature(Quadrature):
-- 
2.43.0


From f434dc58841817efff1908683e80201655fadd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 15/29] fix: evaluate the strip map accurately for rho close to
 1

---
 modepy/quadrature/transplanted.py | 78 +++++++++----------------------
 1 file changed, 23 insertions(+), 55 deletions(-)

diff --git a/modepy/quadrature/transplanted.py b/modepy/quadrature/transplanted.py
index e889ba6..294c1b9 100644
--- a/modepy/quadrature/transplanted.py
+++ b/modepy/quadrature/transplanted.py
@@ -26,7 +26,7 @@ THE SOFTWARE.
 """
 
 from functools import lru_cache
-from math import asin, isfinite, log, sqrt
+from math import asin, isfinite, log
 from typing import TYPE_CHECKING, cast
 
 import numpy as np
@@ -141,36 +141,30 @@ def map_kosloff_tal_ezer(
 
 
 @lru_cache(maxsize=16)
-def _strip_map_parameter_m(rho: float) -> float:
-    if rho <= 1.0:
-        raise ValueError(f"strip map parameter rho must be > 1: {rho}")
-
-    try:
-        from scipy.optimize import root_scalar
-        from scipy.special import ellipk
-    except ImportError as exc:
-        raise RuntimeError(
-            "The Trefethen strip map requires scipy. "
-            "Install modepy with scipy support to use map_name='strip'."
-        ) from exc
+def _strip_map_chebyshev_coefficients(rho: float) -> ArrayF:
+    r"""Chebyshev coefficients of the strip map, which is proportional to
 
-    target = 4.0 * log(rho) / np.pi
+    .. math::
 
-    def f(m: float) -> float:
-        return float(ellipk(1.0 - m) / ellipk(m) - target)
+        \sum_{k = 0}^\infty
+            \frac{T_{2 k + 1}(s)}{(2 k + 1) \sinh((2 k + 1) \log \rho)}.
 
-    upper = 1.0 - 1.0e-8
-    while f(upper) > 0.0 and 1.0 - upper > 1.0e-16:
-        upper = 1.0 - (1.0 - upper) / 10.0
+    All terms are positive, so this does not suffer from cancellation for any
+    value of *rho*, unlike the elliptic functions (whose parameter is
+    indistinguishable from 1 for *rho* close to 1).
+    """
+    if rho <= 1.0:
+        raise ValueError(f"strip map parameter rho must be > 1: {rho}")
 
-    if f(upper) > 0.0:
-        raise RuntimeError(f"failed to bracket strip-map parameter for rho={rho}")
+    log_rho = log(rho)
+    if log_rho < 1.0e-4:
+        raise RuntimeError(f"failed to resolve strip map for rho={rho}")
 
-    result = root_scalar(f, bracket=(1.0e-14, upper), method="brentq")
-    if not result.converged:
-        raise RuntimeError(f"failed to solve strip-map parameter m for rho={rho}")
+    n = 2.0 * np.arange(int(20.0 / log_rho) + 2) + 1.0
+    coeffs = np.zeros(2 * n.size)
+    coeffs[1::2] = np.exp((1.0 - n) * log_rho) / (-n * np.expm1(-2.0 * n * log_rho))
 
-    return float(result.root)
+    return coeffs / np.sum(coeffs)
 
 
 def map_strip(s: ArrayF, *, rho: float = 1.4) -> tuple[ArrayF, ArrayF]:
@@ -195,37 +189,11 @@ def map_strip(s: ArrayF, *, rho: float = 1.4) -> tuple[ArrayF, ArrayF]:
     if np.any(np.abs(s) >= 1.0):
         raise ValueError("strip map expects interior nodes, i.e. abs(s) < 1")
 
-    try:
-        from scipy.special import ellipj, ellipk
-    except ImportError as exc:
-        raise RuntimeError(
-            "The Trefethen strip map requires scipy. "
-            "Install modepy with scipy support to use map_name='strip'."
-        ) from exc
-
-    m = _strip_map_parameter_m(rho)
-    m4 = sqrt(sqrt(m))
-    k = float(ellipk(m))
-
-    omega = 2.0 * k * np.arcsin(s) / np.pi
-    sn_jacobi, cn_jacobi, dn_jacobi, _ = ellipj(omega, m)
-
-    g = np.arctanh(m4 * sn_jacobi) / np.arctanh(m4)
-    gp = (
-            2.0
-            * k
-            * m4
-            * cn_jacobi
-            * dn_jacobi
-            / (
-                np.pi
-                * np.sqrt(1.0 - s**2)
-                * (1.0 - np.sqrt(m) * sn_jacobi**2)
-                * np.arctanh(m4)
-            )
-        )
+    from numpy.polynomial.chebyshev import chebder, chebval
 
-    return g, gp
+    coeffs = _strip_map_chebyshev_coefficients(rho)
+
+    return chebval(s, coeffs), chebval(s, chebder(coeffs))
 
 
 def transplanted_1d_quadrature(
-- 
2.43.0


From 4f84436fc0a5dbbb8f944dd5fe1100d7788bd84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 16/29] fix: keep all values in Vandermonde matrices of
 functions of differing dtype

---
 modepy/matrices.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index 1e0547a..0b0478f 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -114,11 +114,12 @@ def vandermonde(
              DeprecationWarning, stacklevel=2)
         return multi_vandermonde(functions, nodes)
 
-    result = np.empty((nnodes, nfunctions), f_first_values.dtype)
-    result[:, 0] = f_first_values
+    values = [f_first_values, *(f(nodes) for f in f_iter)]
+    dtype = np.result_type(*{np.asarray(f_values).dtype for f_values in values})
+    result = np.empty((nnodes, nfunctions), dtype)
 
-    for j, f in enumerate(f_iter):
-        result[:, j + 1] = f(nodes)
+    for j, f_values in enumerate(values):
+        result[:, j] = f_values
 
     return result
 
@@ -150,21 +151,15 @@ def multi_vandermonde(
     if not nfunctions:
         raise ValueError("empty functions is not allowed")
 
-    result = None
-    for j, f in enumerate(functions):
-        f_values = f(nodes)
-
-        if result is None:
-            from pytools import single_valued
-            dtype = single_valued(fi.dtype for fi in f_values)
-            result = tuple(np.empty((nnodes, nfunctions), dtype)
-                    for i in range(len(f_values)))
+    values = [f(nodes) for f in functions]
+    dtype = np.result_type(*{fi.dtype for f_values in values for fi in f_values})
+    result = tuple(np.empty((nnodes, nfunctions), dtype)
+            for i in range(len(values[0])))
 
+    for j, f_values in enumerate(values):
         for i, f_values_i in enumerate(f_values):
             result[i][:, j] = f_values_i
 
-    assert result is not None
-
     return result
 
 
-- 
2.43.0


From a5abe364b66508e945d900e6da17d5b83802827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 17/29] fix: accept one-dimensional node arrays in
 quad_residual_and_jacobian, as documented

---
 modepy/quadrature/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 7b143de..6373000 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -399,7 +399,7 @@ def quad_residual_and_jacobian(
     :arg reference_integrals: Integrals of *integrands*, shaped ``(len(integrands),)``.
     """
     nintegrands = len(integrands)
-    ndim, _nnodes = nodes.shape
+    ndim = 1 if nodes.ndim == 1 else nodes.shape[0]
 
     if __debug__:
         if len(integrand_derivatives) != ndim:
-- 
2.43.0


From 59314cd7677591ee9f128afa7d95fe83f69cec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 18/29] fix: count nodes, not dimensions, when warning of an
 underdetermined quadrature system

---
 modepy/quadrature/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 6373000..11e28f5 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -321,7 +321,7 @@ def find_weights_undetermined_coefficients(
     if len(reference_integrals) != len(integrands):
         raise ValueError(
                 "number of integrands must match number of reference integrals")
-    if len(reference_integrals) < len(nodes):
+    if len(reference_integrals) < nodes.shape[-1]:
         from warnings import warn
         warn("Underdetermined quadrature system", stacklevel=2)
 
-- 
2.43.0


From 736048c996e63cbef6f379e276577fec87748d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:23 +0000
Subject: [PATCH 19/29] fix: raise NotImplementedError for faces of unsupported
 dimensions

---
 modepy/shapes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 49f046f..7ff49bf 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -457,6 +457,10 @@ _SIMPLEX_FACES: dict[int, tuple[tuple[int, ...], ...]] = {
 
 @faces_for_shape.register(Simplex)
 def faces_for_simplex(shape: Simplex) -> tuple[Face, ...]:
+    if shape.dim not in _SIMPLEX_FACES:
+        raise NotImplementedError(f"faces of a {shape.dim}-dimensional "
+                                  f"{type(shape).__name__}")
+
     # NOTE: order is chosen to maintain a positive orientation
     face_vertex_indices = _SIMPLEX_FACES[shape.dim]
     vertices = unit_vertices_for_shape(shape)
@@ -561,6 +565,10 @@ _HYPERCUBE_FACES: dict[int, tuple[tuple[int, ...], ...]] = {
 
 @faces_for_shape.register(Hypercube)
 def faces_for_hypercube(shape: Hypercube) -> tuple[Face, ...]:
+    if shape.dim not in _HYPERCUBE_FACES:
+        raise NotImplementedError(f"faces of a {shape.dim}-dimensional "
+                                  f"{type(shape).__name__}")
+
     # NOTE: order is chosen to maintain a positive orientation
     face_vertex_indices = _HYPERCUBE_FACES[shape.dim]
     vertices = unit_vertices_for_shape(shape)
-- 
2.43.0


From a2aa6e8dcedf4457f92167c4a672fb7e0e78c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:23 +0000
Subject: [PATCH 20/29] fix: reject mismatched dimensions of space and shape in
 simplex bases

---
 modepy/modes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modepy/modes.py b/modepy/modes.py
index 6258d5a..304a0c2 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -945,6 +945,8 @@ class _SimplexMonomialBasis(SimplexBasis):
 def _basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
 
     if space.spatial_dim <= 3:
         return _SimplexONB(space.spatial_dim, space.order)
@@ -956,6 +958,8 @@ def _basis_for_pn(space: PN, shape: Simplex):
 def _orthonormal_basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
 
     return _SimplexONB(space.spatial_dim, space.order)
 
@@ -964,6 +968,8 @@ def _orthonormal_basis_for_pn(space: PN, shape: Simplex):
 def _monomial_basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
 
     return _SimplexMonomialBasis(space.spatial_dim, space.order)
 
-- 
2.43.0


From 1eff3b12a67adfc44ef99ccf5d000432d25330d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:23 +0000
Subject: [PATCH 21/29] fix: reject out-of-range axes in
 TensorProductBasis.derivatives

---
 modepy/modes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modepy/modes.py b/modepy/modes.py
index 304a0c2..d54d614 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -1092,6 +1092,9 @@ class TensorProductBasis(Basis):
                 for mid in self._mode_index_tuples)
 
     def derivatives(self, axis: int) -> tuple[BasisFunction, ...]:
+        if not 0 <= axis < self._dim:
+            raise IndexError(f"axis {axis} not in 0..{self._dim-1}")
+
         bases = [b.functions for b in self._bases]
         return tuple(
                 _TensorProductBasisFunction(
-- 
2.43.0


From 767e5473468fda191815010f0dcf8e1d844e5b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:23 +0000
Subject: [PATCH 22/29] fix: reject nodes that do not determine the interpolant
 in inverse_mass_matrix

---
 modepy/matrices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index 0b0478f..6caf1ff 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -328,6 +328,9 @@ def inverse_mass_matrix(
              "and will stop working in 2025. Pass a Basis instead.",
              DeprecationWarning, stacklevel=2)
 
+    if len(basis_functions) != nodes.shape[-1]:
+        raise ValueError("basis is not unisolvent, cannot interpolate")
+
     vdm = vandermonde(basis_functions, nodes)
 
     return np.dot(vdm, vdm.T)
-- 
2.43.0


From fddc20f7dbd8c2634d15fbba74e62cdca9062686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:20 +0000
Subject: [PATCH 23/29] fix: reject out-of-range axes in diff_monomial

---
 modepy/modes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modepy/modes.py b/modepy/modes.py
index d54d614..06ff8f1 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -538,6 +538,9 @@ def diff_monomial(
     dim = len(order)
     assert dim == rst.shape[0]
 
+    if not 0 <= diff_axis < dim:
+        raise IndexError(f"axis {diff_axis} not in 0..{dim-1}")
+
     from pytools import product
     return np.asarray(product(
         _diff_monomial_1d(
-- 
2.43.0


From 1aa6523d47e05b518fd772b24d0088139d7971b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:22 +0000
Subject: [PATCH 24/29] fix: do not alias the quadrature weights in
 spectral_diag_nodal_mass_matrix

---
 modepy/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index 6caf1ff..c8ce9ab 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -475,7 +475,7 @@ def spectral_diag_nodal_mass_matrix(
     if not all(quad.dim == 1 for quad in quadrature.quadratures):
         raise ValueError("constituent quadratures of TP quadrature must be 1D")
 
-    return quadrature.weights
+    return quadrature.weights.copy()
 
 
 # {{{ deprecated remove in 2026-ish
-- 
2.43.0


From b6b20f733b8a66d3bff1306830944549a549b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 25/29] fix: evaluate gradients of product bases at points of
 integer type

---
 modepy/modes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 06ff8f1..a68e870 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -722,7 +722,9 @@ class _TensorProductGradientBasisFunction:
                     components = (components,) * self.dims_per_function[ider]
 
                 for j, comp in enumerate(components):
-                    result[n + j] *= comp
+                    # not in place: the factors may have different dtypes, e.g.
+                    # if *x* is an array of integers
+                    result[n + j] = result[n + j] * comp
 
                 f += iaxis
             n += self.dims_per_function[ider]
-- 
2.43.0


From c18d7f86a5c06d1531b07fc9207524313d5a4747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:10 +0000
Subject: [PATCH 26/29] fix: quadgk adds boolean and short integer integrands
 as numbers

---
 modepy/quadrature/kronrod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index 9a55990..edc46d7 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -575,8 +575,12 @@ def quadgk(
     if len(pts) < 2:
         raise ValueError("quadgk requires at least two breakpoints")
 
+    def inexact_f(x):
+        # booleans and short integers must not be added as such
+        return 1.0 * f(x)
+
     s = list(pts)
-    return _do_quadgk(f, s, order, abstol, reltol, maxevals)
+    return _do_quadgk(inexact_f, s, order, abstol, reltol, maxevals)
 
 
 def test_zero_node_is_last():
-- 
2.43.0


From 83489dffcbeac31be8a4e35e34011d6b9a9e1446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:56 +0000
Subject: [PATCH 27/29] fix: integrate matrix-valued functions along the axis
 of the quadrature nodes

---
 modepy/quadrature/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 64bc33e..a96a241 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -196,7 +196,7 @@ class Quadrature:
         *f* is assumed to accept arrays of shape *(dims, npts)*,
         or of shape *(npts,)* for 1D quadrature.
         """
-        return np.dot(self.weights, f(self.nodes).T).T
+        return f(self.nodes) @ self.weights
 
 
 class ZeroDimensionalQuadrature(Quadrature):
-- 
2.43.0


From 419c47cca13c3966205f66d5e43cf5a6b1c09754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:43 +0000
Subject: [PATCH 28/29] fix: accept a face of a hypercube as the only tensor
 product factor

'TensorProductShape((face,))' returns *face* from '__new__', so Python calls
'_HypercubeFace.__init__' on it again, with those bases and without the
arguments that describe the face. Hypercube and QN guard against this already.
---
 modepy/shapes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 7ff49bf..dd0fffd 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -522,6 +522,10 @@ class _HypercubeFace(Hypercube, Face):
             return Shape.__new__(cls)
 
     def __init__(self, dim: int, **kwargs: Any) -> None:
+        if isinstance(dim, tuple):
+            # NOTE: see 'Hypercube.__init__'
+            return
+
         Hypercube.__init__(self, dim)
         Face.__init__(self, **kwargs)
 
-- 
2.43.0


From 71ebe6b6eb5d8cef56b795214e65a7f22a630f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:54 +0000
Subject: [PATCH 29/29] fix: draw Lebesgue functions in two dimensions

---
 modepy/tools.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 92a8b41..8d94059 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -383,17 +383,21 @@ def estimate_lebesgue_constant(
         plt.show()
     elif shape.dim == 2:
         print(f"Lebesgue constant: {lebesgue_constant}")
-        triangles = shp.submesh_for_shape(shape, equi_node_tuples)
+        triangles = np.array(shp.submesh_for_shape(shape, equi_node_tuples))
+        if triangles.shape[1] == 4:
+            # split the quadrilaterals of a square into triangles
+            triangles = np.vstack([triangles[:, :3], triangles[:, 1:]])
 
         import matplotlib.pyplot as plt
+        from matplotlib.tri import Triangulation
 
         fig = plt.figure()
         ax = fig.gca()
         ax.grid()
         ax.plot(nodes[0], nodes[1], "ko")
         p = ax.tricontourf(
-                equi_nodes[0], equi_nodes[1], lebesgue_worst / lebesgue_constant,
-                triangles=triangles,
+                Triangulation(equi_nodes[0], equi_nodes[1], triangles),
+                lebesgue_worst / lebesgue_constant,
                 levels=16)
         fig.colorbar(p)
         ax.set_aspect("equal")
-- 
2.43.0

