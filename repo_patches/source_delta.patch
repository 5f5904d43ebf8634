From dc6967611f2841fe492ff9789bcd48c479e2f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 01/36] fix: raise NotImplementedError for TensorProductSpace
 quadrature on non-product shapes

A typo (type(shape).__name) turned it into an AttributeError.
---
 modepy/quadrature/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 8786cde..43b2d4c 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -339,7 +339,7 @@ def _quadrature_for_tp(
             shape: TensorProductShape
         ) -> Quadrature:
     if not isinstance(shape, TensorProductShape):
-        raise NotImplementedError((type(space).__name__, type(shape).__name))
+        raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
     if space.spatial_dim != shape.dim:
         raise ValueError("spatial dimensions of shape and space must match")
-- 
2.43.0


From a3046fc9a49562e03186cf54b64255747bea4958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 02/36] fix: quadrature_for_space for tensor-product spaces of
 mixed orders

The final assertion compared the minimal exactness over all factors with the
order of every factor and failed for e.g. orders (1, 10). Each factor rule
already asserts its own exactness.
---
 modepy/quadrature/__init__.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 43b2d4c..199dc76 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -345,15 +345,14 @@ def _quadrature_for_tp(
         raise ValueError("spatial dimensions of shape and space must match")
 
     if space.spatial_dim == 0:
-        quad: Quadrature = ZeroDimensionalQuadrature()
-    else:
-        quad = TensorProductQuadrature([
-            quadrature_for_space(sp, shp)
-            for sp, shp in zip(space.bases, shape.bases, strict=True)
-            ])
-
-    assert all(quad.exact_to >= getattr(s, "order", 0) for s in space.bases)
-    return quad
+        return ZeroDimensionalQuadrature()
+
+    # NOTE: exactness is checked for each constituent rule; for spaces with
+    # different orders, TensorProductQuadrature.exact_to is only the minimum.
+    return TensorProductQuadrature([
+        quadrature_for_space(sp, shp)
+        for sp, shp in zip(space.bases, shape.bases, strict=True)
+        ])
 
 # }}}
 
-- 
2.43.0


From 4f2d8232aa85dbed0b72113386c596af28f3e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 03/36] fix: ZeroDimensionalQuadrature declares exactness
 modepy.quadrature.inf

with np.inf, isinf() did not recognise it and products with other
zero-dimensional rules failed to compare.
---
 modepy/quadrature/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 199dc76..4499328 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -206,7 +206,7 @@ class ZeroDimensionalQuadrature(Quadrature):
         super().__init__(np.empty((0, 1), dtype=np.float64),
                          np.ones((1,), dtype=np.float64),
                          # NOTE: exact_to is expected to be an int
-                         exact_to=np.inf)
+                         exact_to=inf)
 
 
 class Transformed1DQuadrature(Quadrature):
-- 
2.43.0


From 600c05fa219696dba6cc1fc8c9fa76ada597c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 04/36] fix: the zero-dimensional orthonormal basis function is
 one, not two

---
 modepy/modes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 9374a63..6258d5a 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -859,8 +859,7 @@ def monomial_basis_for_space(space: FunctionSpace, shape: Shape) -> Basis:
 
 def zerod_basis(x: ArrayF) -> ArrayF:
     assert len(x) == 0
-    x_sub = np.ones(x.shape[1:], x.dtype)
-    return 1 + x_sub
+    return np.ones(x.shape[1:], x.dtype)
 
 
 # {{{ PN bases
-- 
2.43.0


From 6376d9ffa60f99500d9c9d41d3f1a1a131cfde37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 05/36] fix: Monomial.hypercube_integral takes the factor into
 account

as simplex_integral does.
---
 modepy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 0f5c0c5..9d803d4 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -121,7 +121,7 @@ class Monomial:
 
         return reduce(
                 lambda integral, n: integral * 1 / (n + 1),
-                self.exponents, 1.0)
+                self.exponents, self.factor)
 
     def diff(self, coordinate: int) -> Monomial:
         diff_exp = list(self.exponents)
-- 
2.43.0


From d951d00f449b074c50b93cbeeff672844a125eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 06/36] fix: QN spaces can be pickled and copied

The inherited __getnewargs__ did not match the arguments of QN.__new__.
---
 modepy/spaces.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modepy/spaces.py b/modepy/spaces.py
index e328c54..76f6bdd 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -272,6 +272,10 @@ class QN(TensorProductSpace):
     def __init__(self, spatial_dim: int, order: int) -> None:
         super().__init__((PN(1, order),) * spatial_dim)
 
+    def __getnewargs__(self):
+        # Ensures QN is picklable
+        return (self.spatial_dim, self.order)
+
     @property
     @override
     def order(self):
-- 
2.43.0


From 74dbf2084c945eea48953967962dfe03fe0140a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 07/36] fix: generic TensorProductShapes can be pickled and
 copied

---
 modepy/shapes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 24f9363..6888a09 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -374,6 +374,10 @@ class TensorProductShape(Shape):
         super().__init__(dim)
         object.__setattr__(self, "bases", bases)
 
+    def __getnewargs__(self) -> tuple[Any, ...]:
+        # NOTE: ensures TensorProductShape is picklable
+        return (self.bases,)
+
     @property
     @override
     def nvertices(self) -> int:
-- 
2.43.0


From 821e5871fda458623da5b220d23be9c34bde56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 08/36] fix: tensor products of a single tensor-product operand

TensorProductSpace((QN(2, 3),)) and TensorProductShape((Hypercube(2),)) raised
TypeError, because __new__ returned the operand and Python then called the
operand class's __init__ with the wrong arguments. They now flatten, like
products with more operands.
---
 modepy/shapes.py | 2 +-
 modepy/spaces.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 6888a09..c17c00e 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -351,7 +351,7 @@ class TensorProductShape(Shape):
     def __new__(cls, bases: tuple[Shape, ...]) -> TensorProductShape: ...
 
     def __new__(cls, bases: tuple[Shape, ...]) -> Shape:
-        if len(bases) == 1:
+        if len(bases) == 1 and not isinstance(bases[0], TensorProductShape):
             return bases[0]
         else:
             return Shape.__new__(cls)
diff --git a/modepy/spaces.py b/modepy/spaces.py
index 76f6bdd..6b2db5a 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -129,7 +129,7 @@ class TensorProductSpace(FunctionSpace):
     def __new__(cls, bases: tuple[FunctionSpace, ...]) -> TensorProductSpace: ...
 
     def __new__(cls, bases: tuple[FunctionSpace, ...]) -> FunctionSpace:
-        if len(bases) == 1:
+        if len(bases) == 1 and not isinstance(bases[0], TensorProductSpace):
             return bases[0]
         else:
             return FunctionSpace.__new__(cls)
-- 
2.43.0


From ac49ccfc6cfbb16a6b3c54efb40b7e863b65a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 09/36] fix: jacobi_gauss_lobatto_nodes honors force_dim_axis
 for N == 0

---
 modepy/quadrature/jacobi_gauss.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 5f4ba4f..0376c4a 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -279,12 +279,9 @@ def jacobi_gauss_lobatto_nodes(
     """
 
     x: np.ndarray[tuple[int, ...], np.dtype[np.floating]] = np.zeros((N + 1,))
-    if N == 0:
-        x[0] = 0
-        return x
-
-    x[0] = -1
-    x[-1] = 1
+    if N > 0:
+        x[0] = -1
+        x[-1] = 1
 
     if N > 1:
         quad = JacobiGaussQuadrature(alpha + 1, beta + 1, N - 2,
-- 
2.43.0


From 15fbda38c46a2029ce29b62e85786b6fccc46392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 10/36] fix: Gauss-Lobatto weights for Jacobi weight functions
 other than Legendre's

The right edge weight needs alpha and beta exchanged, and the interior weights
were only correct for alpha == beta == 0.
---
 modepy/quadrature/jacobi_gauss.py | 59 ++++++++++++-------------------
 1 file changed, 22 insertions(+), 37 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 0376c4a..74dac8d 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -329,7 +329,7 @@ class JacobiGaussLobattoQuadrature(Quadrature):
 
         from math import gamma
 
-        from modepy.modes import binom, scaled_jacobi
+        from modepy.modes import binom
 
         # Formula numbers refer to https://doi.org/10.1023/A:1016689830453
         if N + 1 < 2:
@@ -343,44 +343,29 @@ class JacobiGaussLobattoQuadrature(Quadrature):
 
         # FIXME: Recurrences might be better than just typing up the formulas.
 
-        # (3.10)
-        common_factor = (
-            2**(alpha + beta + 1)
-            * binom(n + alpha + 1, n)
-            / binom(n + beta + 1, n)
-            / binom(n + alpha + beta + 2, n)
-            * gamma(alpha + 2)
-            / gamma(alpha + beta + 3)
-        )
-        edge_weight = (
-            common_factor
-            * gamma(beta + 1)
-        )
-
-        # (4.7)
-        int_nodes = nodes[1:-1]
-        frac = (
-            4*(n+alpha+1) * (n+beta+1) + (alpha-beta)**2
-        ) / (
-            2*n + alpha + beta + 2
-        )**2
-
-        int_weights = (
-            common_factor
-            * gamma(beta + 2)
-
-            # FIXME: This is part of the paper, but tests only pass without it:
-            # / (n + 1)**2
-
-            / (frac - int_nodes**2)
-            * (1 - int_nodes**2)
-            / scaled_jacobi(alpha, beta, n + 1, int_nodes)**2
-        )
+        # (3.10), the weight for the right edge has alpha and beta swapped
+        def edge_weight(alpha: float, beta: float) -> float:
+            return (
+                2**(alpha + beta + 1)
+                * binom(n + alpha + 1, n)
+                / binom(n + beta + 1, n)
+                / binom(n + alpha + beta + 2, n)
+                * gamma(alpha + 2)
+                / gamma(alpha + beta + 3)
+                * gamma(beta + 1)
+            )
 
         weights = np.empty_like(nodes)
-        weights[0] = edge_weight
-        weights[-1] = edge_weight
-        weights[1:-1] = int_weights
+        weights[0] = edge_weight(alpha, beta)
+        weights[-1] = edge_weight(beta, alpha)
+
+        if N > 1:
+            # The interior nodes are those of the Gauss rule for the weight
+            # function times (1 - x**2), so that its weights are known up to
+            # that factor.
+            interior = JacobiGaussQuadrature(
+                alpha + 1, beta + 1, N - 2, backend=backend)
+            weights[1:-1] = interior.weights / (1 - nodes[1:-1]**2)
 
         if force_dim_axis:
             nodes = nodes.reshape(1, -1)
-- 
2.43.0


From 3c78d87a634ce14b4cdc07de7b3422fe7a2b589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 11/36] fix: quadgk over semi-infinite intervals with reversed
 limits

The half-line was chosen by which limit is infinite rather than by its sign, so
that (inf, a) and (a, -inf) integrated over the wrong half-line.
---
 modepy/quadrature/kronrod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index 35e98de..3cb271d 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -486,10 +486,12 @@ def _do_quadgk(
         if inf1 or inf2:
             if inf1 and inf2:
                 g, sm = _transform_both_inf(f, s)
-            elif inf1:
-                g, sm = _transform_semi_inf_neg(f, s2, s)
             else:
-                g, sm = _transform_semi_inf_pos(f, s1, s)
+                s_fin, s_inf = (s2, s1) if inf1 else (s1, s2)
+                if s_inf < 0:
+                    g, sm = _transform_semi_inf_neg(f, s_fin, s)
+                else:
+                    g, sm = _transform_semi_inf_pos(f, s_fin, s)
             return _do_quadgk(g, sm, n, abstol, reltol, maxevals)
 
     x, w, gw = kronrod(n)
-- 
2.43.0


From f58f59193d6489ba0b9236a2a3a3bf56c8eb9fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 12/36] fix: linearly_combine for bases whose size differs from
 the number of functions

The coefficient matrix was assumed to be square.
---
 modepy/quadrature/construction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 6a906a3..1f452f4 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -128,9 +128,7 @@ def linearly_combine(
         return LinearCombinationIntegrand(coefficients, functions)
 
     basis: list[NodalFunction] = []
-    n = len(lcfunctions)
-    matrix = np.zeros((n, n), dtype=np.complex128)
-    for i, f in enumerate(lcfunctions):
+    for f in lcfunctions:
         ncommon = min(len(basis), len(f.functions))
         if basis[:ncommon]  != f.functions[:ncommon]:
             warn("Not all functions passed to linearly_combine used the "
@@ -141,6 +139,8 @@ def linearly_combine(
 
         basis.extend(f.functions[ncommon:])
 
+    matrix = np.zeros((len(lcfunctions), len(basis)), dtype=np.complex128)
+    for i, f in enumerate(lcfunctions):
         ncoeff = len(f.coefficients)
         matrix[i, :ncoeff] = f.coefficients
 
-- 
2.43.0


From 7e544b2cf63f10bbefc841f4484acc9fd23b3dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 13/36] fix: WitherdenVincentQuadrature does not hand out its
 table

Modifying the nodes or weights of one rule in place corrupted all rules of the
same order created afterwards.
---
 modepy/quadrature/witherden_vincent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/witherden_vincent.py b/modepy/quadrature/witherden_vincent.py
index add2d29..8bef991 100644
--- a/modepy/quadrature/witherden_vincent.py
+++ b/modepy/quadrature/witherden_vincent.py
@@ -64,5 +64,6 @@ class WitherdenVincentQuadrature(Quadrature):
         except KeyError:
             raise QuadratureRuleUnavailable(f"Unsupported order: {order}") from None
 
-        super().__init__(rule["points"], rule["weights"],
+        # NOTE: copied, so that users modifying them do not modify the table
+        super().__init__(rule["points"].copy(), rule["weights"].copy(),
                          exact_to=rule["quad_degree"])
-- 
2.43.0


From 03a3dc54ecf9353c8d97919e619471cadfa059c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 14/36] fix: basis_for_space and friends check that dimensions
 of space and shape match

as the other functions dispatching on a space and a shape do.
---
 modepy/modes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modepy/modes.py b/modepy/modes.py
index 6258d5a..9fa7f40 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -946,6 +946,9 @@ def _basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
+
     if space.spatial_dim <= 3:
         return _SimplexONB(space.spatial_dim, space.order)
     else:
@@ -957,6 +960,9 @@ def _orthonormal_basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
+
     return _SimplexONB(space.spatial_dim, space.order)
 
 
@@ -965,6 +971,9 @@ def _monomial_basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
+
     return _SimplexMonomialBasis(space.spatial_dim, space.order)
 
 # }}}
@@ -1139,6 +1148,9 @@ def _monomial_basis_for_tp(space: TensorProductSpace, shape: TensorProductShape)
     if not isinstance(shape, TensorProductShape):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
+
     bases = [
             monomial_basis_for_space(b, s)
             for b, s in zip(space.bases, shape.bases, strict=True)]
-- 
2.43.0


From 874cd2d5fd8977104c172861abfe1f9bc0b597c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:53 +0000
Subject: [PATCH 15/36] fix: submesh_for_shape tessellates products with
 non-segment factors

Only translates of the order-1 element were generated, which left holes for
prisms: e.g. 6 instead of 8 cells for order 2.
---
 modepy/shapes.py | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index c17c00e..af3e2ff 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -693,19 +693,45 @@ def submesh_for_hypercube(
     from modepy.nodes import node_tuples_for_space
     vertex_node_tuples = node_tuples_for_space(space)
 
-    from pytools import add_tuples
+    # {{{ find vertices of the base shapes' sub-meshes, as node tuples
+
+    base_vertex_dicts: list[dict[tuple[int, ...], int]] = []
+    base_cells: list[list[tuple[tuple[int, ...], ...]]] = []
+    axes: list[slice] = []
+
+    start = 0
+    for base, base_space in zip(shape.bases, space.bases, strict=True):
+        axis = slice(start, start + base.dim)
+        start += base.dim
+
+        base_tuples = sorted({ituple[axis] for ituple in node_tuples})
+        base_cells.append([
+            tuple(base_tuples[i] for i in cell)
+            for cell in submesh_for_shape(base, base_tuples)])
+        base_vertex_dicts.append({
+            ituple: i for i, ituple in enumerate(node_tuples_for_space(base_space))})
+        axes.append(axis)
+
+    # }}}
+
+    from itertools import product
 
-    result: list[tuple[int, ...]] = []
     node_dict = {ituple: idx for idx, ituple in enumerate(node_tuples)}
 
-    for current in node_tuples:
+    # every product of cells of the base shapes is a cell
+    result: list[tuple[int, ...]] = []
+    for cells in product(*base_cells):
         with contextlib.suppress(KeyError):
             result.append(tuple(
-                    node_dict[add_tuples(current, offset)]
-                    for offset in vertex_node_tuples
+                    node_dict[sum((
+                        cell[vertex_dict[vertex[axis]]]
+                        for cell, vertex_dict, axis in
+                        zip(cells, base_vertex_dicts, axes, strict=True)), ())]
+                    for vertex in vertex_node_tuples
                     ))
 
-    return result
+    # order by first vertex
+    return sorted(result, key=lambda cell: cell[0])
 
 # }}}
 
-- 
2.43.0


From 5c47f91d9a391ca5b6b2ba228be6e962778d9137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:25 +0000
Subject: [PATCH 16/36] fix: gradients of tensor-product bases at
 integer-valued points

---
 modepy/modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 9fa7f40..ddb8e34 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -719,7 +719,7 @@ class _TensorProductGradientBasisFunction:
                     components = (components,) * self.dims_per_function[ider]
 
                 for j, comp in enumerate(components):
-                    result[n + j] *= comp
+                    result[n + j] = result[n + j] * comp
 
                 f += iaxis
             n += self.dims_per_function[ider]
-- 
2.43.0


From 65a0bb722e86929f43a671d4df4c7c880a5a00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:56 +0000
Subject: [PATCH 17/36] fix: number of faces of products with zero-dimensional
 factors

---
 modepy/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index af3e2ff..0e2b813 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -387,8 +387,8 @@ class TensorProductShape(Shape):
     @override
     def nfaces(self) -> int:
         # FIXME: this obviously only works for `shape x segment x segment x ...`
-        *segments, shape = sorted(self.bases, key=lambda s: s.dim)
-        return shape.nfaces + len(segments) * segments[0].nfaces
+        # a zero-dimensional factor does not contribute any faces
+        return sum(s.nfaces for s in self.bases if s.dim > 0)
 
 
 @unit_vertices_for_shape.register(TensorProductShape)
-- 
2.43.0


From a084b4bf3cc6030cabbff56b8ac43da0dc6fd2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:04 +0000
Subject: [PATCH 18/36] fix: order of zero-dimensional product spaces

---
 modepy/spaces.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modepy/spaces.py b/modepy/spaces.py
index 6b2db5a..7f97847 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -150,7 +150,7 @@ class TensorProductSpace(FunctionSpace):
         """Polynomial degree of the functions in the space, if any."""
 
         from pytools import is_single_valued
-        if is_single_valued([space.order for space in self.bases]):
+        if self.bases and is_single_valued([space.order for space in self.bases]):
             return self.bases[0].order
         else:
             raise AttributeError(f"{type(self).__name__} has no attribute 'order'")
@@ -271,6 +271,7 @@ class QN(TensorProductSpace):
 
     def __init__(self, spatial_dim: int, order: int) -> None:
         super().__init__((PN(1, order),) * spatial_dim)
+        self._order: int = order
 
     def __getnewargs__(self):
         # Ensures QN is picklable
@@ -280,7 +281,7 @@ class QN(TensorProductSpace):
     @override
     def order(self):
         """Maximum degree of the polynomials in the space."""
-        return self.bases[0].order
+        return self._order
 
     @override
     def __repr__(self) -> str:
-- 
2.43.0


From 8ec2634b73934aa51fd873dedd617ce26027d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:29 +0000
Subject: [PATCH 19/36] fix: tensor products that flatten to a single factor
 are that factor

---
 modepy/shapes.py | 15 ++++++++++-----
 modepy/spaces.py | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 0e2b813..f3724b7 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -332,6 +332,13 @@ def faces_for_shape(shape: Shape) -> tuple[Face, ...]:
 
 # {{{ tensor product shape
 
+def _flatten_bases(bases: tuple[Shape, ...]) -> tuple[Shape, ...]:
+    return sum((
+        s.bases if isinstance(s, TensorProductShape) else (s,)
+        for s in bases
+        ), ())
+
+
 @dataclass(frozen=True, init=False)
 class TensorProductShape(Shape):
     """A shape formed as a tensor product of other shapes.
@@ -351,17 +358,15 @@ class TensorProductShape(Shape):
     def __new__(cls, bases: tuple[Shape, ...]) -> TensorProductShape: ...
 
     def __new__(cls, bases: tuple[Shape, ...]) -> Shape:
-        if len(bases) == 1 and not isinstance(bases[0], TensorProductShape):
+        bases = _flatten_bases(bases)
+        if len(bases) == 1:
             return bases[0]
         else:
             return Shape.__new__(cls)
 
     def __init__(self, bases: tuple[Shape, ...]) -> None:
         # flatten input shapes
-        bases = sum((
-            s.bases if isinstance(s, TensorProductShape) else (s,)
-            for s in bases
-            ), ())
+        bases = _flatten_bases(bases)
 
         nsegments = len([s for s in bases if s.dim == 1])
         if nsegments < len(bases) - 1:
diff --git a/modepy/spaces.py b/modepy/spaces.py
index 7f97847..f3b8de2 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -110,6 +110,13 @@ def space_for_shape(
 
 # # {{{ generic tensor product space
 
+def _flatten_bases(bases: tuple[FunctionSpace, ...]) -> tuple[FunctionSpace, ...]:
+    return sum((
+        space.bases if isinstance(space, TensorProductSpace) else (space,)
+        for space in bases
+        ), ())
+
+
 class TensorProductSpace(FunctionSpace):
     """A function space defined as the tensor product of lower dimensional spaces.
 
@@ -129,16 +136,14 @@ class TensorProductSpace(FunctionSpace):
     def __new__(cls, bases: tuple[FunctionSpace, ...]) -> TensorProductSpace: ...
 
     def __new__(cls, bases: tuple[FunctionSpace, ...]) -> FunctionSpace:
-        if len(bases) == 1 and not isinstance(bases[0], TensorProductSpace):
+        bases = _flatten_bases(bases)
+        if len(bases) == 1:
             return bases[0]
         else:
             return FunctionSpace.__new__(cls)
 
     def __init__(self, bases: tuple[FunctionSpace, ...]) -> None:
-        self.bases = sum((
-            space.bases if isinstance(space, TensorProductSpace) else (space,)
-            for space in bases
-            ), ())
+        self.bases = _flatten_bases(bases)
 
     def __getnewargs__(self):
         # Ensures TensorProductSpace is picklable
-- 
2.43.0


From 28d629e5984e5e0d056df0a0245762828319a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 20/36] fix: Vandermonde matrices keep the values of functions
 of different types

---
 modepy/matrices.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index 1e0547a..c12063d 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -114,11 +114,11 @@ def vandermonde(
              DeprecationWarning, stacklevel=2)
         return multi_vandermonde(functions, nodes)
 
-    result = np.empty((nnodes, nfunctions), f_first_values.dtype)
-    result[:, 0] = f_first_values
+    values = [f_first_values, *(f(nodes) for f in f_iter)]
 
-    for j, f in enumerate(f_iter):
-        result[:, j + 1] = f(nodes)
+    result = np.empty((nnodes, nfunctions), np.result_type(*values))
+    for j, f_values in enumerate(values):
+        result[:, j] = f_values
 
     return result
 
@@ -150,21 +150,16 @@ def multi_vandermonde(
     if not nfunctions:
         raise ValueError("empty functions is not allowed")
 
-    result = None
-    for j, f in enumerate(functions):
-        f_values = f(nodes)
+    values = [f(nodes) for f in functions]
 
-        if result is None:
-            from pytools import single_valued
-            dtype = single_valued(fi.dtype for fi in f_values)
-            result = tuple(np.empty((nnodes, nfunctions), dtype)
-                    for i in range(len(f_values)))
+    result = tuple(
+            np.empty((nnodes, nfunctions), np.result_type(*axis_values))
+            for axis_values in zip(*values, strict=True))
 
+    for j, f_values in enumerate(values):
         for i, f_values_i in enumerate(f_values):
             result[i][:, j] = f_values_i
 
-    assert result is not None
-
     return result
 
 
-- 
2.43.0


From 264a464dcf7a5cca746eb93748d9b2cc6999d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 21/36] fix: infinite limits of quadgk combine with any real
 number type

---
 modepy/quadrature/kronrod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index 3cb271d..fcf6db8 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -43,6 +43,7 @@ THE SOFTWARE.
 """
 
 import heapq
+import numbers
 from dataclasses import dataclass
 from functools import lru_cache
 from typing import TYPE_CHECKING, Protocol, overload
@@ -479,7 +480,7 @@ def _do_quadgk(
     using h-adaptive Gauss-Kronrod quadrature.
     """
     # Handle infinite / semi-infinite intervals
-    real_endpoints = all(isinstance(si, (int, float)) for si in s)
+    real_endpoints = all(isinstance(si, numbers.Real) for si in s)
     if real_endpoints:
         s1, s2 = s[0], s[-1]
         inf1, inf2 = np.isinf(s1), np.isinf(s2)
-- 
2.43.0


From dde1ea4c1002efbe459812663ff3356b05b196c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 22/36] fix: quadrature rules integrate matrix-valued functions

---
 modepy/quadrature/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 4499328..8daea7b 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -196,7 +196,7 @@ class Quadrature:
         *f* is assumed to accept arrays of shape *(dims, npts)*,
         or of shape *(npts,)* for 1D quadrature.
         """
-        return np.dot(self.weights, f(self.nodes).T).T
+        return f(self.nodes) @ self.weights
 
 
 class ZeroDimensionalQuadrature(Quadrature):
-- 
2.43.0


From 003d9e4f0815386f69d5964023fe816e18c6d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:12 +0000
Subject: [PATCH 23/36] fix: strip map and its derivative are accurate for
 every admissible rho

The Jacobi elliptic functions lose all accuracy for parameters near one,
so that for rho < 1.1 the derivative was off by percents, while the parameter
could not be determined for rho < 1.064 and rho > 5800.
---
 modepy/quadrature/transplanted.py | 91 ++++++++++---------------------
 1 file changed, 30 insertions(+), 61 deletions(-)

diff --git a/modepy/quadrature/transplanted.py b/modepy/quadrature/transplanted.py
index e889ba6..33c7743 100644
--- a/modepy/quadrature/transplanted.py
+++ b/modepy/quadrature/transplanted.py
@@ -25,7 +25,6 @@ OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 THE SOFTWARE.
 """
 
-from functools import lru_cache
 from math import asin, isfinite, log, sqrt
 from typing import TYPE_CHECKING, cast
 
@@ -140,37 +139,24 @@ def map_kosloff_tal_ezer(
     return g, gp
 
 
-@lru_cache(maxsize=16)
-def _strip_map_parameter_m(rho: float) -> float:
-    if rho <= 1.0:
-        raise ValueError(f"strip map parameter rho must be > 1: {rho}")
-
-    try:
-        from scipy.optimize import root_scalar
-        from scipy.special import ellipk
-    except ImportError as exc:
-        raise RuntimeError(
-            "The Trefethen strip map requires scipy. "
-            "Install modepy with scipy support to use map_name='strip'."
-        ) from exc
-
-    target = 4.0 * log(rho) / np.pi
-
-    def f(m: float) -> float:
-        return float(ellipk(1.0 - m) / ellipk(m) - target)
-
-    upper = 1.0 - 1.0e-8
-    while f(upper) > 0.0 and 1.0 - upper > 1.0e-16:
-        upper = 1.0 - (1.0 - upper) / 10.0
-
-    if f(upper) > 0.0:
-        raise RuntimeError(f"failed to bracket strip-map parameter for rho={rho}")
-
-    result = root_scalar(f, bracket=(1.0e-14, upper), method="brentq")
-    if not result.converged:
-        raise RuntimeError(f"failed to solve strip-map parameter m for rho={rho}")
-
-    return float(result.root)
+def _strip_map_unscaled(y: ArrayF, period: float) -> tuple[ArrayF, ArrayF]:
+    # arctanh(sqrt(k) sn) and its derivative, where y/period = arcsin(s)/(pi/2).
+    # This is the quotient of theta functions for the complementary nome
+    # exp(-2*period): all terms are positive, so that this is accurate
+    # for narrow strips (k close to 1), too.
+    n = np.arange(3 + int(sqrt(20.0 / period)))[:, np.newaxis]
+    slope = np.where(n % 2 == 0, 2 * n, -2 * n - 2)
+    num = np.exp(-2.0 * n * (n + 1) * period + slope * y)
+    den = np.exp(-2.0 * n * (n + 1) * period - slope * y)
+    num_sum = np.sum(num, axis=0)
+    den_sum = np.sum(den, axis=0)
+
+    return (
+        y + 0.5 * np.log(num_sum / den_sum),
+        1.0 + 0.5 * (
+            np.sum(slope * num, axis=0) / num_sum
+            + np.sum(slope * den, axis=0) / den_sum)
+    )
 
 
 def map_strip(s: ArrayF, *, rho: float = 1.4) -> tuple[ArrayF, ArrayF]:
@@ -195,35 +181,18 @@ def map_strip(s: ArrayF, *, rho: float = 1.4) -> tuple[ArrayF, ArrayF]:
     if np.any(np.abs(s) >= 1.0):
         raise ValueError("strip map expects interior nodes, i.e. abs(s) < 1")
 
-    try:
-        from scipy.special import ellipj, ellipk
-    except ImportError as exc:
-        raise RuntimeError(
-            "The Trefethen strip map requires scipy. "
-            "Install modepy with scipy support to use map_name='strip'."
-        ) from exc
-
-    m = _strip_map_parameter_m(rho)
-    m4 = sqrt(sqrt(m))
-    k = float(ellipk(m))
-
-    omega = 2.0 * k * np.arcsin(s) / np.pi
-    sn_jacobi, cn_jacobi, dn_jacobi, _ = ellipj(omega, m)
-
-    g = np.arctanh(m4 * sn_jacobi) / np.arctanh(m4)
-    gp = (
-            2.0
-            * k
-            * m4
-            * cn_jacobi
-            * dn_jacobi
-            / (
-                np.pi
-                * np.sqrt(1.0 - s**2)
-                * (1.0 - np.sqrt(m) * sn_jacobi**2)
-                * np.arctanh(m4)
-            )
-        )
+    if not (rho > 1.0 and isfinite(rho)):
+        raise ValueError(f"strip map parameter rho must be > 1: {rho}")
+
+    s = np.asarray(s)
+    period = np.pi**2 / (8.0 * log(rho))
+    scale = 2.0 * period / np.pi
+
+    g, gp = _strip_map_unscaled(scale * np.arcsin(s).reshape(-1), period)
+    g1, _ = _strip_map_unscaled(np.array([period]), period)
+
+    g = (g / g1).reshape(s.shape)
+    gp = (gp / g1).reshape(s.shape) * scale / np.sqrt(1.0 - s**2)
 
     return g, gp
 
-- 
2.43.0


From e90f9ec91286907353e99b9dbcd0f0ffcb863a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 24/36] fix: quad_residual_and_jacobian accepts nodes without
 dimension axis

---
 modepy/quadrature/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 1f452f4..fc64170 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -399,7 +399,7 @@ def quad_residual_and_jacobian(
     :arg reference_integrals: Integrals of *integrands*, shaped ``(len(integrands),)``.
     """
     nintegrands = len(integrands)
-    ndim, _nnodes = nodes.shape
+    ndim = 1 if nodes.ndim == 1 else len(nodes)
 
     if __debug__:
         if len(integrand_derivatives) != ndim:
-- 
2.43.0


From f0e81b0a6ffbbe72cc149fd56c844c3a16de67ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 25/36] fix: underdetermined quadrature systems are recognized
 for any nodes

---
 modepy/quadrature/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index fc64170..b681632 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -321,7 +321,7 @@ def find_weights_undetermined_coefficients(
     if len(reference_integrals) != len(integrands):
         raise ValueError(
                 "number of integrands must match number of reference integrals")
-    if len(reference_integrals) < len(nodes):
+    if len(reference_integrals) < nodes.shape[-1]:
         from warnings import warn
         warn("Underdetermined quadrature system", stacklevel=2)
 
-- 
2.43.0


From 0fd4560de6f57a180da9da290f30e42dd27d65e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 26/36] fix: Lebesgue constant of order zero nodes is one, not
 NaN

---
 modepy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 9d803d4..15c6985 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -314,7 +314,7 @@ def plot_element_values(
 def _evaluate_lebesgue_function(
         n: int, nodes: ArrayF, shape: Shape
     ) -> tuple[ArrayF, Sequence[tuple[int, ...]], ArrayF]:
-    huge_n = (30 if shape.dim == 2 else 10) * n
+    huge_n = (30 if shape.dim == 2 else 10) * max(n, 1)
 
     import modepy as mp
 
-- 
2.43.0


From 81adb459f00e011381b644cbd46df6d6789a697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:23 +0000
Subject: [PATCH 27/36] fix: plot_element_values triangulates the resampled
 nodes

---
 modepy/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 15c6985..008ad3d 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -273,7 +273,6 @@ def plot_element_values(
 
     shape = mp.Simplex(dims)
     space = mp.space_for_shape(shape, n)
-    submesh = mp.submesh_for_shape(shape, mp.node_tuples_for_space(space))
 
     if resample_n is not None:
         basis = mp.orthonormal_basis_for_space(space, shape)
@@ -283,6 +282,9 @@ def plot_element_values(
         values = mat @ values
         nodes = fine_nodes
         n = resample_n
+        space = mp.space_for_shape(shape, n)
+
+    submesh = mp.submesh_for_shape(shape, mp.node_tuples_for_space(space))
 
     if dims == 1:
         import matplotlib.pyplot as pt
-- 
2.43.0


From b7e365d4c80692b2a29b916e93134fbed0183644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:32 +0000
Subject: [PATCH 28/36] fix: visualizing the Lebesgue function in 2D works with
 current matplotlib

---
 modepy/tools.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 008ad3d..afb8c84 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -372,7 +372,7 @@ def estimate_lebesgue_constant(
     if shape.dim != dim:
         raise ValueError(f"expected {shape.dim}-dimensional nodes")
 
-    lebesgue_worst, equi_node_tuples, equi_nodes = \
+    lebesgue_worst, _, equi_nodes = \
             _evaluate_lebesgue_function(n, nodes, shape)
     lebesgue_constant = float(np.max(lebesgue_worst))
 
@@ -385,7 +385,6 @@ def estimate_lebesgue_constant(
         plt.show()
     elif shape.dim == 2:
         print(f"Lebesgue constant: {lebesgue_constant}")
-        triangles = shp.submesh_for_shape(shape, equi_node_tuples)
 
         import matplotlib.pyplot as plt
 
@@ -395,7 +394,6 @@ def estimate_lebesgue_constant(
         ax.plot(nodes[0], nodes[1], "ko")
         p = ax.tricontourf(
                 equi_nodes[0], equi_nodes[1], lebesgue_worst / lebesgue_constant,
-                triangles=triangles,
                 levels=16)
         fig.colorbar(p)
         ax.set_aspect("equal")
-- 
2.43.0


From c89dd200637634ec8eced0f16de402d1dc0ec9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:07 +0000
Subject: [PATCH 29/36] fix: spectral_diag_nodal_mass_matrix does not hand out
 the rule's own weights

---
 modepy/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index c12063d..594e608 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -472,7 +472,7 @@ def spectral_diag_nodal_mass_matrix(
     if not all(quad.dim == 1 for quad in quadrature.quadratures):
         raise ValueError("constituent quadratures of TP quadrature must be 1D")
 
-    return quadrature.weights
+    return quadrature.weights.copy()
 
 
 # {{{ deprecated remove in 2026-ish
-- 
2.43.0


From 31d4103218ddd620b77c984ba9a09bec78fedd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 30/36] fix: face_normal works when first called from several
 threads at once

---
 modepy/shapes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index f3724b7..484b166 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -303,12 +303,16 @@ def face_normal(face: Face, normalize: bool = True) -> ArrayF:
     from functools import reduce
     from operator import xor as outerprod
 
-    from pymbolic.geometric_algebra import MultiVector
+    from pymbolic.geometric_algebra import MultiVector, get_euclidean_space
+
+    # NOTE: Multivectors only combine within the same (identical) space, which
+    # concurrent first calls of get_euclidean_space do not agree on.
+    space = get_euclidean_space(len(face_vertices))
 
     surface_ps = cast(
         "MultiVector[np.floating]",
         reduce(outerprod, [
-            MultiVector(face_vertices[:, i+1] - face_vertices[:, 0])
+            MultiVector(face_vertices[:, i+1] - face_vertices[:, 0], space)
             for i in range(face.dim)
         ])
     )
-- 
2.43.0


From 88fd51bbd94ec8d6424b5fd7ba3b9312dca0a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:52 +0000
Subject: [PATCH 31/36] fix: pkdo_2d took a third row of points as the
 tolerance of the singular vertex

Evaluating a triangle basis function at three-dimensional points silently
passed the third coordinate to _rstoab as 'tol'. Unpack exactly two rows, as
grad_pkdo_2d and pkdo_3d do, so that such points are rejected.
---
 modepy/modes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index ddb8e34..7a9c629 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -317,7 +317,8 @@ def pkdo_2d(order: tuple[int, int], rs: ArrayF) -> ArrayF:
     * |dubiner-ref|
     """
 
-    a, b = _rstoab(*rs)
+    r, s = rs
+    a, b = _rstoab(r, s)
     i, j = order
 
     h1 = jacobi(0, 0, i, a)
-- 
2.43.0


From d5aac80e0c97e3d6f3a8e0fb2c826a46c5b56f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:52 +0000
Subject: [PATCH 32/36] fix: (inverse) mass matrix of nodes that are not
 unisolvent

With fewer nodes than basis functions, mass_matrix() returned the inverse of
V V^T, which is not a mass matrix. Reject non-unisolvent nodes like the other
functions in this module do.
---
 modepy/matrices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index 594e608..b027a09 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -328,6 +328,9 @@ def inverse_mass_matrix(
              "and will stop working in 2025. Pass a Basis instead.",
              DeprecationWarning, stacklevel=2)
 
+    if len(basis_functions) != nodes.shape[1]:
+        raise ValueError("nodes not unisolvent with basis")
+
     vdm = vandermonde(basis_functions, nodes)
 
     return np.dot(vdm, vdm.T)
-- 
2.43.0


From 4ae853319c14e02721f0a5c3bb7f06c9a71f49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:25 +0000
Subject: [PATCH 33/36] fix: scaled_jacobi overflowed for n > 85

---
 modepy/modes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 7a9c629..8106ebb 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -276,10 +276,9 @@ def scaled_jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValue
         scaling = (
             2**(alpha + beta + 1)
             / (2*n + alpha + beta + 1)
-            * gamma(n + alpha + 1)
-            * gamma(n + beta + 1)
-            / gamma(n + alpha + beta + 1)
-            / factorial(n)
+            # divide as we go, the product of the two overflows for n > 85
+            * (gamma(n + alpha + 1) / factorial(n))
+            * (gamma(n + beta + 1) / gamma(n + alpha + beta + 1))
         )
 
     return sqrt(scaling) * jacobi(alpha, beta, n, x)
-- 
2.43.0


From 745515b5520d000a2d0a9e7bcc9b7da0e7d7e983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:58 +0000
Subject: [PATCH 34/36] fix: accurate Gauss-Jacobi rules for alpha + beta close
 to -1

The first off-diagonal entry of the Jacobi matrix contains the quotient
of n + alpha + beta and 2*n + alpha + beta - 1, which coincide for n == 1.
Close to zero they only agree up to rounding, which the rule's nodes and
weights amplified to errors of up to 1e-3.
---
 modepy/quadrature/jacobi_gauss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 74dac8d..581cacc 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -161,6 +161,11 @@ class JacobiGaussQuadrature(Quadrature):
 
         # see Appendix A of Hesthaven/Warburton for these formulas
         def a(n: int) -> np.floating:
+            if n == 1:
+                # NOTE: n + apb and 2*n + apb - 1 cancel, which must not be left
+                # to rounding when they are close to zero
+                return 2 / (apb + 2) * np.sqrt((alpha + 1) * (beta + 1) / (apb + 3))
+
             return 2 / (2*n + apb) * np.sqrt(
                 (n * (n+apb) * (n+alpha) * (n+beta))
                 / ((2*n + apb - 1) * (2*n + apb + 1))
-- 
2.43.0


From 20600bb990a62fe5897f1eebf52ba3f82aea7896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:01 +0000
Subject: [PATCH 35/36] fix: compute dimensions and vertex counts of products
 exactly

---
 modepy/shapes.py | 3 ++-
 modepy/spaces.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 484b166..dfb6e3c 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -218,6 +218,7 @@ THE SOFTWARE.
 """
 
 import contextlib
+import math
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
 from functools import partial, singledispatch
@@ -390,7 +391,7 @@ class TensorProductShape(Shape):
     @property
     @override
     def nvertices(self) -> int:
-        return int(np.prod([s.nvertices for s in self.bases]))
+        return math.prod(s.nvertices for s in self.bases)
 
     @property
     @override
diff --git a/modepy/spaces.py b/modepy/spaces.py
index f3b8de2..e22c001 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -48,12 +48,12 @@ OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 THE SOFTWARE.
 """
 
+import math
 from abc import ABC, abstractmethod
 from functools import singledispatch
 from numbers import Number
 from typing import Literal, TypeVar, overload
 
-import numpy as np
 from typing_extensions import override
 
 from modepy.shapes import Shape, Simplex, TensorProductShape
@@ -168,7 +168,7 @@ class TensorProductSpace(FunctionSpace):
     @property
     @override
     def space_dim(self) -> int:
-        return int(np.prod([space.space_dim for space in self.bases]))
+        return math.prod(space.space_dim for space in self.bases)
 
     @override
     def __repr__(self) -> str:
-- 
2.43.0


From 5ffdf6b241a74c98af4efb2210c03c3bd6d436bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:17 +0000
Subject: [PATCH 36/36] fix: Jacobi polynomials and Gauss-Lobatto rules of high
 order or large parameters

The gamma function overflows for arguments beyond 171, so that these raised
OverflowError (and weights of Gauss-Lobatto rules came out infinite).
---
 modepy/modes.py                   | 21 +++++++++++++++++----
 modepy/quadrature/jacobi_gauss.py |  7 +++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 8106ebb..c4739af 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -180,7 +180,7 @@ def jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValueT:
     :returns: a vector of :math:`P^{(\alpha, \beta)}_n` evaluated at all *x*.
     """
 
-    from math import gamma
+    from math import exp, gamma, lgamma, log
 
     # Initial values P_0(x) and P_1(x)
     # NOTE: general formula gets a divide by 0 in the `alpha + beta == -1` case,
@@ -188,6 +188,10 @@ def jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValueT:
     #   lim 2**(x + 1) / (x + 1) / gamma(x + 1) = 1 as x -> -1
     if abs(alpha + beta + 1) < 1.0e-14:
         gamma0 = gamma(alpha+1) * gamma(beta+1)
+    elif alpha + beta > 150:
+        # gamma overflows
+        gamma0 = exp((alpha+beta+1)*log(2)
+                + lgamma(alpha+1) + lgamma(beta+1) - lgamma(alpha+beta+2))
     else:
         gamma0 = (2**(alpha+beta+1) / (alpha+beta+1.)
                 * gamma(alpha+1) * gamma(beta+1) / gamma(alpha+beta+1))
@@ -236,10 +240,12 @@ def grad_jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValueT:
 
 
 def binom(x: float, y: float) -> float:
-    # FIXME This may overflow quickly.
     # mpmath has clever 'gammaprod' pole handling in case that's ever needed:
     # https://github.com/mpmath/mpmath/blob/75a2ed37c4f2c576a9d01d360ee4c94ead57c7ff/mpmath/functions/factorials.py#L61-L65
-    from math import gamma
+    from math import exp, gamma, lgamma
+    if x > 150:
+        # gamma overflows
+        return exp(lgamma(x + 1) - lgamma(y + 1) - lgamma(x - y + 1))
     return gamma(x + 1) / (gamma(y + 1) * gamma(x - y + 1))
 
 
@@ -259,7 +265,7 @@ def scaled_jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValue
 
     This is the more conventional definition of the Jacobi polynomials.
     """
-    from math import factorial, gamma, sqrt
+    from math import exp, factorial, gamma, lgamma, log, sqrt
 
     eps = float(100 * np.finfo((np.float32(0) + np.asarray(x)).dtype).eps)
     if n == 0 and abs(alpha + beta + 1) < eps:
@@ -270,6 +276,13 @@ def scaled_jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValue
             * gamma(n + beta + 1)
             / factorial(n)
         )
+    elif n + alpha + beta > 150:
+        # gamma overflows, see below
+        scaling = exp(
+            (alpha + beta + 1) * log(2)
+            + (lgamma(n + alpha + 1) - lgamma(n + 1))
+            + (lgamma(n + beta + 1) - lgamma(n + alpha + beta + 1))
+        ) / (2*n + alpha + beta + 1)
     else:
         # source:
         # https://en.wikipedia.org/w/index.php?title=Jacobi_polynomials&oldid=1219118998
diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 581cacc..1714fce 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -332,7 +332,7 @@ class JacobiGaussLobattoQuadrature(Quadrature):
             force_dim_axis: bool = False) -> None:
         nodes = jacobi_gauss_lobatto_nodes(alpha, beta, N, backend)
 
-        from math import gamma
+        from math import exp, lgamma
 
         from modepy.modes import binom
 
@@ -355,9 +355,8 @@ class JacobiGaussLobattoQuadrature(Quadrature):
                 * binom(n + alpha + 1, n)
                 / binom(n + beta + 1, n)
                 / binom(n + alpha + beta + 2, n)
-                * gamma(alpha + 2)
-                / gamma(alpha + beta + 3)
-                * gamma(beta + 1)
+                * exp(lgamma(alpha + 2) + lgamma(beta + 1)
+                    - lgamma(alpha + beta + 3))
             )
 
         weights = np.empty_like(nodes)
-- 
2.43.0

