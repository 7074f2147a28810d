From 0549cdeb27dd2be9f750d4e0d0e0e152a51880fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 01/76] fix: integrate piecewise functions in local
 coordinates, once over shared sub-domains

---
 symfem/piecewise_functions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 3d45b7c..e2503e8 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -457,10 +457,20 @@ class PiecewiseFunction(AnyFunction):
             The integral
         """
         result = ScalarFunction(0)
+        done: typing.Set[typing.FrozenSet[PointType]] = set()
         for shape, f in self._pieces.items():
             ref = _piece_reference(self.tdim, shape)
             sub_domain = ref.intersection(domain)
             if sub_domain is not None:
+                if sub_domain.tdim < self.tdim:
+                    # Neighbouring pieces share this part of the domain: only integrate over it once
+                    if frozenset(sub_domain.vertices) in done:
+                        continue
+                    done.add(frozenset(sub_domain.vertices))
+                if sub_domain.vertices != domain.vertices:
+                    # The dummy variables in f are local coordinates of domain, not sub_domain
+                    local = VectorFunction(domain.get_inverse_map_to_self()).subs(x, vars)
+                    f = f.subs(dummy_vars[: domain.tdim], local)
                 result += f.integral(sub_domain, vars, dummy_vars)
         return result
 
-- 
2.43.0


From ff23adb3d4cf7e94fd214adde26d030296456696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 02/76] fix: let functionals and operators accept lazily
 evaluated basis functions

---
 symfem/basis_functions.py | 24 ++++++++++++------------
 symfem/functionals.py     |  3 +++
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 42859fe..604a55e 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -58,7 +58,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The sum of two functions
         """
-        return self.get_function().__add__(other)
+        return self.get_function() + other
 
     def __radd__(self, other: typing.Any) -> AnyFunction:
         """Add.
@@ -69,7 +69,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The sum of two functions
         """
-        return self.get_function().__radd__(other)
+        return other + self.get_function()
 
     def __sub__(self, other: typing.Any) -> AnyFunction:
         """Subtract.
@@ -80,7 +80,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The difference of two functions
         """
-        return self.get_function().__sub__(other)
+        return self.get_function() - other
 
     def __rsub__(self, other: typing.Any) -> AnyFunction:
         """Subtract.
@@ -91,7 +91,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The difference of two functions
         """
-        return self.get_function().__rsub__(other)
+        return other - self.get_function()
 
     def __neg__(self) -> AnyFunction:
         """Negate.
@@ -110,7 +110,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The ratio of two functions
         """
-        return self.get_function().__truediv__(other)
+        return self.get_function() / other
 
     def __rtruediv__(self, other: typing.Any) -> AnyFunction:
         """Divide.
@@ -121,7 +121,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The ratio of two functions
         """
-        return self.get_function().__rtruediv__(other)
+        return other / self.get_function()
 
     def __mul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -132,7 +132,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two functions
         """
-        return self.get_function().__mul__(other)
+        return self.get_function() * other
 
     def __rmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -143,7 +143,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two functions
         """
-        return self.get_function().__rmul__(other)
+        return other * self.get_function()
 
     def __matmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -154,7 +154,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two matrix functions
         """
-        return self.get_function().__matmul__(other)
+        return self.get_function() @ other
 
     def __rmatmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -165,7 +165,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two matrix functions
         """
-        return self.get_function().__rmatmul__(other)
+        return other @ self.get_function()
 
     def __pow__(self, other: typing.Any) -> AnyFunction:
         """Raise to a power.
@@ -176,7 +176,7 @@ class BasisFunction(AnyFunction):
         Returns:
             This function to the power of other
         """
-        return self.get_function().__pow__(other)
+        return self.get_function() ** other
 
     def as_sympy(self) -> SympyFormat:
         """Convert to a sympy expression.
@@ -290,7 +290,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The norm
         """
-        raise self.get_function().norm()
+        return self.get_function().norm()
 
     def integral(
         self,
diff --git a/symfem/functionals.py b/symfem/functionals.py
index 932b9fe..12f88c3 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -6,6 +6,7 @@ from abc import ABC, abstractmethod
 import sympy
 
 from symfem import mappings
+from symfem.basis_functions import BasisFunction
 from symfem.functions import (
     AnyFunction,
     FunctionInput,
@@ -211,6 +212,8 @@ class BaseFunctional(ABC):
         Returns:
             The value of the functional for the function
         """
+        if isinstance(function, BasisFunction):
+            function = function.get_function()
         e = self._eval_symbolic(function)
         assert isinstance(e, ScalarFunction)
         es = e.as_sympy()
-- 
2.43.0


From afef3187d022293058324479ac4a432ee29a351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 03/76] fix: inverse map of a triangle embedded in 3D

---
 symfem/references.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 7716b5f..a8f167e 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1186,9 +1186,11 @@ class Triangle(Reference):
             mat = sympy.Matrix([[v1[0], v2[0]], [v1[1], v2[1]]]).inv()
             return (_vdot(mat.row(0), p), _vdot(mat.row(1), p))
 
-        return tuple(
-            _vdot(_vsub(tuple(x), self.origin), a) * sympy.Integer(1) / _vnorm(a) for a in self.axes
-        )
+        p = _vsub(tuple(x), self.origin)
+        v1, v2 = self.axes
+        gram = sympy.Matrix([[_vdot(v1, v1), _vdot(v1, v2)], [_vdot(v2, v1), _vdot(v2, v2)]]).inv()
+        proj = (_vdot(p, v1), _vdot(p, v2))
+        return (_vdot(gram.row(0), proj), _vdot(gram.row(1), proj))
 
     def volume(self) -> sympy.core.expr.Expr:
         """Calculate the volume.
-- 
2.43.0


From 5f40fff3ccef747909f57dabf65d8651c813bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 04/76] fix: Tetrahedron.contains on non-default cells

---
 symfem/references.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/references.py b/symfem/references.py
index a8f167e..d503c75 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1410,7 +1410,7 @@ class Tetrahedron(Reference):
             t0 = minv[0, 0] * po[0] + minv[0, 1] * po[1] + minv[0, 2] * po[2]
             t1 = minv[1, 0] * po[0] + minv[1, 1] * po[1] + minv[1, 2] * po[2]
             t2 = minv[2, 0] * po[0] + minv[2, 1] * po[1] + minv[2, 2] * po[2]
-            return 0 <= t0 and 0 <= t1 and 0 >= t2 and t0 + t1 + t2 <= 1
+            return 0 <= t0 and 0 <= t1 and 0 <= t2 and t0 + t1 + t2 <= 1
 
 
 class Quadrilateral(Reference):
-- 
2.43.0


From 0ec9d0c9021b05f284c36fcbe8500d11851c9546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 05/76] fix: pyramid maps are the identity on the reference
 cell

---
 symfem/references.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index d503c75..62bac68 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -2216,9 +2216,11 @@ class Pyramid(Reference):
         """
         assert self.vertices == self.reference_vertices
         return tuple(
-            (1 - x[2])
-            * ((1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1) + x[1] * ((1 - x[0]) * v2 + x[0] * v3))
-            + x[2] * v4
+            v0
+            + x[0] * (v1 - v0)
+            + x[1] * (v2 - v0)
+            + x[2] * (v4 - v0)
+            + x[0] * x[1] / (1 - x[2]) * (v0 - v1 - v2 + v3)
             for v0, v1, v2, v3, v4 in zip(*vertices)
         )
 
@@ -2252,9 +2254,11 @@ class Pyramid(Reference):
             The map
         """
         return tuple(
-            (1 - x[2])
-            * ((1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1) + x[1] * ((1 - x[0]) * v2 + x[0] * v3))
-            + x[2] * v4
+            v0
+            + x[0] * (v1 - v0)
+            + x[1] * (v2 - v0)
+            + x[2] * (v4 - v0)
+            + x[0] * x[1] / (1 - x[2]) * (v0 - v1 - v2 + v3)
             for v0, v1, v2, v3, v4 in zip(*self.vertices)
         )
 
-- 
2.43.0


From 4d178bd712161150d35b42deb044c927d98affa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 06/76] fix: use curls and gradients in the 2D serendipity
 H(div) and H(curl) spaces

---
 symfem/polynomials/polysets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index decc39c..72b52b7 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -353,10 +353,10 @@ def Hdiv_serendipity(
     if domain_dim == 2:
         return [
             VectorFunction(
-                (variables[0] ** (order + 1), (order + 1) * variables[0] ** order * variables[1])
+                (variables[0] ** (order + 1), -(order + 1) * variables[0] ** order * variables[1])
             ),
             VectorFunction(
-                ((order + 1) * variables[0] * variables[1] ** order, variables[1] ** (order + 1))
+                ((order + 1) * variables[0] * variables[1] ** order, -(variables[1] ** (order + 1)))
             ),
         ]
     if domain_dim == 3:
@@ -410,7 +410,7 @@ def Hcurl_serendipity(
     if domain_dim == 2:
         return [
             VectorFunction(
-                ((order + 1) * variables[0] ** order * variables[1], -(variables[0] ** (order + 1)))
+                ((order + 1) * variables[0] ** order * variables[1], variables[0] ** (order + 1))
             ),
             VectorFunction(
                 (variables[1] ** (order + 1), (order + 1) * variables[0] * variables[1] ** order)
-- 
2.43.0


From af92e7219e5640401cd3653d866c605eaa0dc52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 07/76] fix: BDFM space on a tetrahedron had functions with a
 normal component of too high degree

---
 symfem/elements/bdfm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/bdfm.py b/symfem/elements/bdfm.py
index a69589e..4d81b14 100644
--- a/symfem/elements/bdfm.py
+++ b/symfem/elements/bdfm.py
@@ -65,7 +65,7 @@ def bdfm_polyset(reference: Reference, order: int) -> typing.List[FunctionInput]
             pset.append((x[0] * p, x[1] * p, x[2] * p))
         for i in range(1, order):
             p = x[0] ** i * x[1] ** (order - 1 - i)
-            pset.append((p * (x[0] + x[1]), 0, x[1] * p))
+            pset.append((p * (x[0] + x[1]), 0, x[2] * p))
 
     return pset
 
-- 
2.43.0


From 6a404bd074ebf372427b7e0feb14c12c572a869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 08/76] fix: range dimension of the Alfeld-Sorokina element

---
 symfem/elements/alfeld_sorokina.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/alfeld_sorokina.py b/symfem/elements/alfeld_sorokina.py
index 2c19329..7c21d6b 100644
--- a/symfem/elements/alfeld_sorokina.py
+++ b/symfem/elements/alfeld_sorokina.py
@@ -123,7 +123,7 @@ class AlfeldSorokina(CiarletElement):
         poly: typing.List[FunctionInput] = []
         poly += [PiecewiseFunction({i: j for i, j in zip(subs, p)}, 2) for p in piece_list]
 
-        super().__init__(reference, order, poly, dofs, reference.tdim, 1)
+        super().__init__(reference, order, poly, dofs, reference.tdim, 2)
 
     @property
     def lagrange_subdegree(self) -> int:
-- 
2.43.0


From ee3d312cfd2cc22ced84f3e9fe7a77ced919cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 09/76] fix: maximum degree of functions on simplices and
 prisms

---
 symfem/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 121c941..09d36b5 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -921,12 +921,13 @@ class ScalarFunction(AnyFunction):
                 d += 1
                 f = f.diff(v)
             degrees.append(d - 1)
+        monomials = sympy.Poly(self._f, *x).monoms()
         if cell.name in ["interval", "triangle", "tetrahedron"]:
-            return sum(degrees)
+            return max(sum(m) for m in monomials)
         elif cell.name in ["quadrilateral", "hexahedron"]:
             return max(degrees)
         elif cell.name == "prism":
-            return max(degrees[0] + degrees[1], degrees[2])
+            return max(max(m[0] + m[1], m[2]) for m in monomials)
         else:
             raise ValueError(f"Unrecognised cell: {cell.name}")
 
-- 
2.43.0


From d8ba115ab5c95ae713cdfd300b5d566c7eeef5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 10/76] fix: matrix Lagrange elements are matrix valued

---
 symfem/elements/lagrange.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/symfem/elements/lagrange.py b/symfem/elements/lagrange.py
index a0797b1..f96fbb5 100644
--- a/symfem/elements/lagrange.py
+++ b/symfem/elements/lagrange.py
@@ -202,19 +202,21 @@ class MatrixLagrange(CiarletElement):
         """
         scalar_space = Lagrange(reference, order, variant)
         dofs: ListOfFunctionals = []
-        if reference.tdim == 1:
-            directions: typing.List[typing.Tuple[int, ...]] = [(1,)]
-        else:
-            directions = [
-                tuple(1 if i == j else 0 for j in range(reference.tdim**2))
-                for i in range(reference.tdim**2)
-            ]
+        tdim = reference.tdim
+        directions = [
+            tuple(tuple(1 if (i, j) == (r, c) else 0 for j in range(tdim)) for i in range(tdim))
+            for r in range(tdim)
+            for c in range(tdim)
+        ]
         for p in scalar_space.dofs:
             for d in directions:
                 dofs.append(DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity))
 
         poly: typing.List[FunctionInput] = []
-        poly += polynomial_set_vector(reference.tdim, reference.tdim**2, order)
+        poly += [
+            tuple(tuple(a[i * tdim + j] for j in range(tdim)) for i in range(tdim))
+            for a in polynomial_set_vector(tdim, tdim**2, order)
+        ]
 
         super().__init__(
             reference,
-- 
2.43.0


From 92b84bc1331ff76fafcd2ca66af59038db33f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 11/76] fix: space of the Bell element on non-default triangles

---
 symfem/elements/bell.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/symfem/elements/bell.py b/symfem/elements/bell.py
index c141f1f..3dd9f43 100644
--- a/symfem/elements/bell.py
+++ b/symfem/elements/bell.py
@@ -5,6 +5,8 @@ This element's definition is given in https://doi.org/10.1002/nme.1620010108 (Be
 
 import typing
 
+import sympy
+
 from symfem.finite_element import CiarletElement
 from symfem.functionals import DerivativePointEvaluation, ListOfFunctionals, PointEvaluation
 from symfem.functions import FunctionInput
@@ -40,9 +42,21 @@ class Bell(CiarletElement):
 
         poly: typing.List[FunctionInput] = []
         poly += polynomial_set_1d(reference.tdim, 4)
-        poly.append(x[0] ** 5 - x[1] ** 5)
-        poly.append(x[0] ** 3 * x[1] ** 2 - x[0] ** 2 * x[1] ** 3)
-        poly.append(5 * x[0] ** 2 * x[1] ** 3 - x[0] ** 5)
+        # Add the quintics whose normal derivative on every edge is a cubic
+        quintics = [x[0] ** (5 - i) * x[1] ** i for i in range(6)]
+        quartic_part: typing.List[typing.List[sympy.core.expr.Expr]] = []
+        for e_n in range(3):
+            tangent = reference.sub_entity(1, e_n).axes[0]
+            quartic_part.append(
+                [
+                    (tangent[0] * q.diff(x[1]) - tangent[1] * q.diff(x[0])).subs(
+                        list(zip(x, tangent))
+                    )
+                    for q in quintics
+                ]
+            )
+        for coeffs in sympy.Matrix(quartic_part).nullspace():
+            poly.append(sympy.Add(*[c * q for c, q in zip(coeffs, quintics)]))
 
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
 
-- 
2.43.0


From 170ef6615fc02acb54ef0447e39f6eb1e692fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 12/76] fix: give interior moments of H(div), H(curl) and inner
 H(div) elements the mapping of their space

---
 symfem/elements/abf.py                 |  2 +-
 symfem/elements/aw.py                  |  1 +
 symfem/elements/bdfm.py                | 10 ++++++++--
 symfem/elements/bdm.py                 |  8 +++++++-
 symfem/elements/tnt.py                 | 21 +++++++++++----------
 symfem/elements/trimmed_serendipity.py | 12 +++++++-----
 6 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/symfem/elements/abf.py b/symfem/elements/abf.py
index 864e7a4..6bfd375 100644
--- a/symfem/elements/abf.py
+++ b/symfem/elements/abf.py
@@ -45,7 +45,7 @@ class ArnoldBoffiFalk(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             edges=(NormalIntegralMoment, Lagrange, order, {"variant": variant}),
-            faces=(IntegralMoment, Nedelec, order, {"variant": variant}),
+            faces=(IntegralMoment, Nedelec, order, "contravariant", {"variant": variant}),
         )
 
         for i in range(order + 1):
diff --git a/symfem/elements/aw.py b/symfem/elements/aw.py
index 6477459..082188b 100644
--- a/symfem/elements/aw.py
+++ b/symfem/elements/aw.py
@@ -212,6 +212,7 @@ class NonConformingArnoldWinther(CiarletElement):
                         tuple(tuple(p * j for j in i) for i in component22),
                         dof,
                         entity=(2, 0),
+                        mapping="double_contravariant",
                     )
                 )
 
diff --git a/symfem/elements/bdfm.py b/symfem/elements/bdfm.py
index 4d81b14..b6bda21 100644
--- a/symfem/elements/bdfm.py
+++ b/symfem/elements/bdfm.py
@@ -91,13 +91,19 @@ class BDFM(CiarletElement):
             dofs = make_integral_moment_dofs(
                 reference,
                 facets=(NormalIntegralMoment, Lagrange, order - 1, {"variant": variant}),
-                cells=(IntegralMoment, NedelecFirstKind, order - 1, {"variant": variant}),
+                cells=(
+                    IntegralMoment,
+                    NedelecFirstKind,
+                    order - 1,
+                    "contravariant",
+                    {"variant": variant},
+                ),
             )
         else:
             dofs = make_integral_moment_dofs(
                 reference,
                 facets=(NormalIntegralMoment, DPC, order - 1, {"variant": variant}),
-                cells=(IntegralMoment, VectorDPC, order - 2, {"variant": variant}),
+                cells=(IntegralMoment, VectorDPC, order - 2, "contravariant", {"variant": variant}),
             )
         self.variant = variant
 
diff --git a/symfem/elements/bdm.py b/symfem/elements/bdm.py
index 05d0f0e..62cc758 100644
--- a/symfem/elements/bdm.py
+++ b/symfem/elements/bdm.py
@@ -38,7 +38,13 @@ class BDM(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, Lagrange, order, {"variant": variant}),
-            cells=(IntegralMoment, NedelecFirstKind, order - 1, {"variant": variant}),
+            cells=(
+                IntegralMoment,
+                NedelecFirstKind,
+                order - 1,
+                "contravariant",
+                {"variant": variant},
+            ),
         )
         self.variant = variant
 
diff --git a/symfem/elements/tnt.py b/symfem/elements/tnt.py
index 5fb4da2..59e85f7 100644
--- a/symfem/elements/tnt.py
+++ b/symfem/elements/tnt.py
@@ -240,12 +240,12 @@ class TNTcurl(CiarletElement):
                 )
         if reference.tdim == 2:
             for f in face_moments:
-                dofs.append(IntegralAgainst(reference, f, entity=(2, 0), mapping="contravariant"))
+                dofs.append(IntegralAgainst(reference, f, entity=(2, 0), mapping="covariant"))
         elif reference.tdim == 3:
             for face_n in range(6):
                 for f in face_moments:
                     dofs.append(
-                        IntegralAgainst(reference, f, entity=(2, face_n), mapping="contravariant")
+                        IntegralAgainst(reference, f, entity=(2, face_n), mapping="covariant")
                     )
 
         # Interior Moments
@@ -292,9 +292,7 @@ class TNTcurl(CiarletElement):
                         f *= x[2] ** (k - 1) * x[2] ** k
                         grad_f = ScalarFunction(f).grad(3)
                         dofs.append(
-                            IntegralAgainst(
-                                reference, grad_f, entity=(3, 0), mapping="contravariant"
-                            )
+                            IntegralAgainst(reference, grad_f, entity=(3, 0), mapping="covariant")
                         )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
@@ -392,7 +390,7 @@ class TNTdiv(CiarletElement):
                 grad_f = ScalarFunction(f).grad(reference.tdim)
                 dofs.append(
                     IntegralAgainst(
-                        reference, grad_f, entity=(reference.tdim, 0), mapping="covariant"
+                        reference, grad_f, entity=(reference.tdim, 0), mapping="contravariant"
                     )
                 )
 
@@ -405,7 +403,7 @@ class TNTdiv(CiarletElement):
                     )
                     dofs.append(
                         IntegralAgainst(
-                            reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                            reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                         )
                     )
         if reference.tdim == 3:
@@ -427,7 +425,7 @@ class TNTdiv(CiarletElement):
                         )
                         dofs.append(
                             IntegralAgainst(
-                                reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                             )
                         )
                         f = (
@@ -445,7 +443,7 @@ class TNTdiv(CiarletElement):
                         )
                         dofs.append(
                             IntegralAgainst(
-                                reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                             )
                         )
                         if k in [0, 2]:
@@ -464,7 +462,10 @@ class TNTdiv(CiarletElement):
                             )
                             dofs.append(
                                 IntegralAgainst(
-                                    reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                    reference,
+                                    f,
+                                    entity=(reference.tdim, 0),
+                                    mapping="contravariant",
                                 )
                             )
 
diff --git a/symfem/elements/trimmed_serendipity.py b/symfem/elements/trimmed_serendipity.py
index 5e050d0..3540f5d 100644
--- a/symfem/elements/trimmed_serendipity.py
+++ b/symfem/elements/trimmed_serendipity.py
@@ -97,8 +97,8 @@ class TrimmedSerendipityHcurl(CiarletElement):
         dofs += make_integral_moment_dofs(
             reference,
             edges=(TangentIntegralMoment, DPC, order - 1, {"variant": variant}),
-            faces=(IntegralMoment, VectorDPC, order - 3, "contravariant", {"variant": variant}),
-            volumes=(IntegralMoment, VectorDPC, order - 5, "contravariant", {"variant": variant}),
+            faces=(IntegralMoment, VectorDPC, order - 3, "covariant", {"variant": variant}),
+            volumes=(IntegralMoment, VectorDPC, order - 5, "covariant", {"variant": variant}),
         )
         if order >= 2:
             for f_n in range(reference.sub_entity_count(2)):
@@ -106,7 +106,7 @@ class TrimmedSerendipityHcurl(CiarletElement):
                     f = ScalarFunction(x[0] ** (order - 1 - i) * x[1] ** i).grad(2)
                     f2 = VectorFunction((f[1], -f[0])).subs(x, tuple(t))
                     dofs.append(
-                        IntegralAgainst(reference, f2, entity=(2, f_n), mapping="contravariant")
+                        IntegralAgainst(reference, f2, entity=(2, f_n), mapping="covariant")
                     )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
@@ -190,7 +190,7 @@ class TrimmedSerendipityHdiv(CiarletElement):
         dofs += make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, DPC, order - 1, {"variant": variant}),
-            cells=(IntegralMoment, VectorDPC, order - 3, "covariant", {"variant": variant}),
+            cells=(IntegralMoment, VectorDPC, order - 3, "contravariant", {"variant": variant}),
         )
         if order >= 2:
             if reference.tdim == 2:
@@ -207,7 +207,9 @@ class TrimmedSerendipityHdiv(CiarletElement):
             for f in fs:
                 f2 = f.subs(x, tuple(t))
                 dofs.append(
-                    IntegralAgainst(reference, f2, entity=(reference.tdim, 0), mapping="covariant")
+                    IntegralAgainst(
+                        reference, f2, entity=(reference.tdim, 0), mapping="contravariant"
+                    )
                 )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
-- 
2.43.0


From cad87507c3e83330a453e6bce3a288cbef738648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 13/76] fix: declare L2 continuity for elements that share no
 or too few DOFs between cells

---
 symfem/elements/bernstein.py                | 3 +++
 symfem/elements/enriched_galerkin.py        | 2 +-
 symfem/elements/lagrange.py                 | 6 ++++++
 symfem/elements/lagrange_prism.py           | 6 ++++++
 symfem/elements/lagrange_pyramid.py         | 3 +++
 symfem/elements/morley_wang_xu.py           | 3 +--
 symfem/elements/q.py                        | 6 ++++++
 symfem/elements/vector_enriched_galerkin.py | 4 ++--
 8 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/symfem/elements/bernstein.py b/symfem/elements/bernstein.py
index fbe9d57..a9ad17d 100644
--- a/symfem/elements/bernstein.py
+++ b/symfem/elements/bernstein.py
@@ -233,6 +233,9 @@ class Bernstein(CiarletElement):
                             )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
+        if order == 0:
+            # No degrees of freedom are shared between cells
+            self.continuity = "L2"
 
     @property
     def lagrange_subdegree(self) -> int:
diff --git a/symfem/elements/enriched_galerkin.py b/symfem/elements/enriched_galerkin.py
index 51b30fa..2ff4c69 100644
--- a/symfem/elements/enriched_galerkin.py
+++ b/symfem/elements/enriched_galerkin.py
@@ -50,6 +50,6 @@ class EnrichedGalerkin(EnrichedElement):
     names = ["enriched Galerkin", "EG"]
     references = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron"]
     min_order = 1
-    continuity = "C0"
+    continuity = "L2"
     value_type = "scalar"
     last_updated = "2023.05"
diff --git a/symfem/elements/lagrange.py b/symfem/elements/lagrange.py
index f96fbb5..d1869bc 100644
--- a/symfem/elements/lagrange.py
+++ b/symfem/elements/lagrange.py
@@ -79,6 +79,9 @@ class Lagrange(CiarletElement):
         poly += polynomial_set_1d(reference.tdim, order)
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            # No degrees of freedom are shared between cells
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
@@ -156,6 +159,9 @@ class VectorLagrange(CiarletElement):
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            # No degrees of freedom are shared between cells
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
diff --git a/symfem/elements/lagrange_prism.py b/symfem/elements/lagrange_prism.py
index e0c11d5..2412e44 100644
--- a/symfem/elements/lagrange_prism.py
+++ b/symfem/elements/lagrange_prism.py
@@ -108,6 +108,9 @@ class Lagrange(CiarletElement):
 
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            # No degrees of freedom are shared between cells
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
@@ -173,6 +176,9 @@ class VectorLagrange(CiarletElement):
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            # No degrees of freedom are shared between cells
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
diff --git a/symfem/elements/lagrange_pyramid.py b/symfem/elements/lagrange_pyramid.py
index 19db1a3..750b9da 100644
--- a/symfem/elements/lagrange_pyramid.py
+++ b/symfem/elements/lagrange_pyramid.py
@@ -103,6 +103,9 @@ class Lagrange(CiarletElement):
 
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            # No degrees of freedom are shared between cells
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
diff --git a/symfem/elements/morley_wang_xu.py b/symfem/elements/morley_wang_xu.py
index 340a2b5..ce124f2 100644
--- a/symfem/elements/morley_wang_xu.py
+++ b/symfem/elements/morley_wang_xu.py
@@ -122,7 +122,6 @@ class MorleyWangXu(CiarletElement):
     references = ["interval", "triangle", "tetrahedron"]
     min_order = 1
     max_order = {"interval": 1, "triangle": 2, "tetrahedron": 3}
-    # continuity = "C{order}"
-    continuity = "C0"
+    continuity = "L2"
     value_type = "scalar"
     last_updated = "2023.06"
diff --git a/symfem/elements/q.py b/symfem/elements/q.py
index 69157bb..b70a234 100644
--- a/symfem/elements/q.py
+++ b/symfem/elements/q.py
@@ -92,6 +92,9 @@ class Q(CiarletElement):
 
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            # No degrees of freedom are shared between cells
+            self.continuity = "L2"
 
     def get_tensor_factorisation(
         self,
@@ -205,6 +208,9 @@ class VectorQ(CiarletElement):
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            # No degrees of freedom are shared between cells
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
diff --git a/symfem/elements/vector_enriched_galerkin.py b/symfem/elements/vector_enriched_galerkin.py
index bdc6538..22d84ce 100644
--- a/symfem/elements/vector_enriched_galerkin.py
+++ b/symfem/elements/vector_enriched_galerkin.py
@@ -59,7 +59,7 @@ class Enrichment(CiarletElement):
     references = ["triangle", "quadrilateral", "tetrahedron", "hexahedron"]
     min_order = 1
     max_order = 1
-    continuity = "C0"
+    continuity = "L2"
     value_type = "vector"
     last_updated = "2023.05"
 
@@ -100,6 +100,6 @@ class VectorEnrichedGalerkin(EnrichedElement):
     names = ["enriched vector Galerkin", "locking-free enriched Galerkin", "LFEG"]
     references = ["triangle", "quadrilateral", "tetrahedron", "hexahedron"]
     min_order = 1
-    continuity = "C0"
+    continuity = "L2"
     value_type = "vector"
     last_updated = "2023.05"
-- 
2.43.0


From 0a81a6e6ff596cf7a1079ae1b33171300bb04571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 14/76] fix: map each sub-element's own part of an explicit
 basis in EnrichedElement.map_to_cell

---
 symfem/finite_element.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 674fc9e..3d0250e 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -1218,8 +1218,12 @@ class EnrichedElement(FiniteElement):
             The basis functions mapped to the cell
         """
         out = []
+        start = 0
         for e in self._subelements:
-            out += e.map_to_cell(vertices_in, basis, forward_map, inverse_map)
+            end = start + e.space_dim
+            e_basis = None if basis is None else basis[start:end]
+            out += e.map_to_cell(vertices_in, e_basis, forward_map, inverse_map)
+            start = end
         return out
 
     def get_polynomial_basis(self) -> typing.List[AnyFunction]:
-- 
2.43.0


From 70619b1deade82065173179bc2d6771799afef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 15/76] fix: inverse map from the reference quadrilateral to
 quadrilaterals in 3D that are vertical

---
 symfem/references.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 62bac68..06f11f6 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1552,9 +1552,9 @@ class Quadrilateral(Reference):
         v1 = _vsub(vertices[1], vertices[0])
         v2 = _vsub(vertices[2], vertices[0])
 
-        if len(self.vertices[0]) == 2:
+        if len(vertices[0]) == 2:
             mat = sympy.Matrix([[v1[0], v2[0]], [v1[1], v2[1]]]).inv()
-        elif len(self.vertices[0]) == 3:
+        elif len(vertices[0]) == 3:
             v3 = _vcross(v1, v2)
             mat = sympy.Matrix(
                 [[v1[0], v2[0], v3[0]], [v1[1], v2[1], v3[1]], [v1[2], v2[2], v3[2]]]
-- 
2.43.0


From 494087cc40e939c00668f869edb89a1dbbdb1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 16/76] fix: give BDDF interior moments the contravariant
 mapping

---
 symfem/elements/bddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/bddf.py b/symfem/elements/bddf.py
index 7d0cdd5..1421bdf 100644
--- a/symfem/elements/bddf.py
+++ b/symfem/elements/bddf.py
@@ -63,7 +63,7 @@ class BDDF(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, DPC, order, {"variant": variant}),
-            cells=(IntegralMoment, VectorDPC, order - 2, {"variant": variant}),
+            cells=(IntegralMoment, VectorDPC, order - 2, "contravariant", {"variant": variant}),
         )
 
         self.variant = variant
-- 
2.43.0


From 03d3fe5dfac17ec18228308f3193a044f51bd333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 17/76] fix: bubble enriched Lagrange elements with Legendre
 DOFs are only L2

---
 symfem/elements/bubble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/elements/bubble.py b/symfem/elements/bubble.py
index 28cf61c..daa3816 100644
--- a/symfem/elements/bubble.py
+++ b/symfem/elements/bubble.py
@@ -140,6 +140,8 @@ class BubbleEnrichedLagrange(CiarletElement):
         self.variant = variant
 
         super().__init__(reference, order, poly, lagrange.dofs + bubble.dofs, reference.tdim, 1)
+        if variant == "legendre":
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
-- 
2.43.0


From d9e417b001826bff85979fb533b635e01f62e7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 18/76] fix: points off the plane of a triangle in 3D are not
 inside it

---
 symfem/geometry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symfem/geometry.py b/symfem/geometry.py
index 8ad84ba..e5f7f3a 100644
--- a/symfem/geometry.py
+++ b/symfem/geometry.py
@@ -151,6 +151,11 @@ def point_in_triangle(point: PointType, triangle: SetOfPoints) -> bool:
     if isinstance(uv, sympy.Float) and _is_close(uv, 1):
         uv = sympy.Integer(1)
 
+    if len(point) > 2:
+        for i, a, b in zip(v2, v0, v1):
+            if not _is_close(i, u * a + v * b):
+                return False
+
     return u >= 0 and v >= 0 and uv <= 1
 
 
-- 
2.43.0


From efa9fd2f1206657a06d9d62fa8a000fb07292c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 19/76] fix: point location in quadrilaterals whose vertices
 are numbered clockwise

---
 symfem/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfem/geometry.py b/symfem/geometry.py
index e5f7f3a..d2d9e81 100644
--- a/symfem/geometry.py
+++ b/symfem/geometry.py
@@ -193,7 +193,8 @@ def point_in_quadrilateral(point: PointType, quad: SetOfPoints) -> bool:
     if isinstance(d3, sympy.Float) and _is_close(d3, 0):
         d3 = sympy.Integer(0)
 
-    return d0 >= 0 and d1 >= 0 and d2 >= 0 and d3 >= 0
+    d = (d0, d1, d2, d3)
+    return all(i >= 0 for i in d) or all(i <= 0 for i in d)
 
 
 def point_in_tetrahedron(point: PointType, tetrahedron: SetOfPoints) -> bool:
-- 
2.43.0


From c9c3b30cd8e6a0f660695cb07c3d4430f2b5726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 20/76] fix: on_edge and on_face check that the point is on the
 edge or face

---
 symfem/references.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 06f11f6..0772cca 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -16,6 +16,7 @@ from symfem.geometry import (
     SetOfPointsInput,
     parse_point_input,
     parse_set_of_points_input,
+    point_in_triangle,
 )
 from symfem.symbols import AxisVariablesNotSingle, t, x
 
@@ -620,14 +621,13 @@ class Reference(ABC):
         Returns:
             Is the point on an edge?
         """
-        from symfem.functions import VectorFunction
-
-        point = VectorFunction(point_in)
+        point = parse_point_input(point_in)
         for e in self.edges:
-            v0 = VectorFunction(self.vertices[e[0]])
-            v1 = VectorFunction(self.vertices[e[1]])
-            crossed = (v0 - point).cross(v1 - point).norm()
-            if crossed == 0:
+            v0 = self.vertices[e[0]]
+            tangent = _vsub(self.vertices[e[1]], v0)
+            v = _vsub(point, v0)
+            s = _vdot(v, tangent) / _vdot(tangent, tangent)
+            if 0 <= s <= 1 and all(sympy.simplify(i - s * j) == 0 for i, j in zip(v, tangent)):
                 return True
         return False
 
@@ -640,16 +640,13 @@ class Reference(ABC):
         Returns:
             Is the point on a face?
         """
-        from symfem.functions import VectorFunction
-
-        point = VectorFunction(point_in)
+        point = parse_point_input(point_in)
         for f in self.faces:
-            v0 = VectorFunction(self.vertices[f[0]])
-            v1 = VectorFunction(self.vertices[f[1]])
-            v2 = VectorFunction(self.vertices[f[2]])
-            crossed = (v0 - point).cross(v1 - point)
-            if crossed.dot(v2 - point):
-                return True
+            if len(f) > 4:
+                raise NotImplementedError()
+            for i in range(len(f) - 2):
+                if point_in_triangle(point, tuple(self.vertices[j] for j in f[i : i + 3])):
+                    return True
         return False
 
     @abstractmethod
-- 
2.43.0


From e157c7618bec47e82ee941466d4cf0bf0fb62a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 21/76] fix: lattice of a prism had points on its boundary

---
 symfem/references.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 0772cca..22137d4 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1967,8 +1967,8 @@ class Prism(Reference):
                 sympy.Rational(2 * j + 1, 2 * (n + 1)),
                 sympy.Rational(2 * k + 1, 2 * (n + 1)),
             )
-            for i in range(n + 1)
-            for j in range(n + 1 - i)
+            for i in range(n)
+            for j in range(n - i)
             for k in range(n + 1)
         )
 
-- 
2.43.0


From 7d59c677f248c7592838b0d4196107c3dd6bcbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 22/76] fix: exact test for points off the plane of a triangle
 in 3D

---
 symfem/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfem/geometry.py b/symfem/geometry.py
index d2d9e81..1c99deb 100644
--- a/symfem/geometry.py
+++ b/symfem/geometry.py
@@ -153,7 +153,8 @@ def point_in_triangle(point: PointType, triangle: SetOfPoints) -> bool:
 
     if len(point) > 2:
         for i, a, b in zip(v2, v0, v1):
-            if not _is_close(i, u * a + v * b):
+            off = sympy.simplify(i - u * a - v * b)
+            if off != 0 and not (off.has(sympy.Float) and _is_close(off, 0)):
                 return False
 
     return u >= 0 and v >= 0 and uv <= 1
-- 
2.43.0


From bb2d96b2a060d5e6bc7273d92d3ea760c5193a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 23/76] fix: piecewise operations match pieces by cell, not by
 position

---
 symfem/piecewise_functions.py | 62 +++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index e2503e8..7921de4 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -172,9 +172,10 @@ class PiecewiseFunction(AnyFunction):
 
         if self.tdim != other.tdim:
             return False
-        for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-            assert shape0 == shape1
-            if f0 != f1:
+        if self._pieces.keys() != other._pieces.keys():
+            return False
+        for shape0, f0 in self._pieces.items():
+            if f0 != other._pieces[shape0]:
                 return False
         return True
 
@@ -191,8 +192,9 @@ class PiecewiseFunction(AnyFunction):
         """Add."""
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
-            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-                assert shape0 == shape1
+            assert self._pieces.keys() == other._pieces.keys()
+            for shape0, f0 in self._pieces.items():
+                f1 = other._pieces[shape0]
                 new_pieces[shape0] = f0 + f1
             return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction({shape: f + other for shape, f in self._pieces.items()}, self.tdim)
@@ -201,8 +203,9 @@ class PiecewiseFunction(AnyFunction):
         """Add."""
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
-            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-                assert shape0 == shape1
+            assert self._pieces.keys() == other._pieces.keys()
+            for shape0, f0 in self._pieces.items():
+                f1 = other._pieces[shape0]
                 new_pieces[shape0] = f1 + f0
             return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction({shape: other + f for shape, f in self._pieces.items()}, self.tdim)
@@ -211,8 +214,9 @@ class PiecewiseFunction(AnyFunction):
         """Subtract."""
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
-            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-                assert shape0 == shape1
+            assert self._pieces.keys() == other._pieces.keys()
+            for shape0, f0 in self._pieces.items():
+                f1 = other._pieces[shape0]
                 new_pieces[shape0] = f0 - f1
             return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction({shape: f - other for shape, f in self._pieces.items()}, self.tdim)
@@ -221,8 +225,9 @@ class PiecewiseFunction(AnyFunction):
         """Subtract."""
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
-            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-                assert shape0 == shape1
+            assert self._pieces.keys() == other._pieces.keys()
+            for shape0, f0 in self._pieces.items():
+                f1 = other._pieces[shape0]
                 new_pieces[shape0] = f1 - f0
             return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction({shape: other - f for shape, f in self._pieces.items()}, self.tdim)
@@ -231,8 +236,9 @@ class PiecewiseFunction(AnyFunction):
         """Divide."""
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
-            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-                assert shape0 == shape1
+            assert self._pieces.keys() == other._pieces.keys()
+            for shape0, f0 in self._pieces.items():
+                f1 = other._pieces[shape0]
                 new_pieces[shape0] = f0 / f1
             return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction({shape: f / other for shape, f in self._pieces.items()}, self.tdim)
@@ -241,8 +247,9 @@ class PiecewiseFunction(AnyFunction):
         """Divide."""
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
-            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-                assert shape0 == shape1
+            assert self._pieces.keys() == other._pieces.keys()
+            for shape0, f0 in self._pieces.items():
+                f1 = other._pieces[shape0]
                 new_pieces[shape0] = f1 / f0
             return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction({shape: other / f for shape, f in self._pieces.items()}, self.tdim)
@@ -251,8 +258,9 @@ class PiecewiseFunction(AnyFunction):
         """Multiply."""
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
-            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-                assert shape0 == shape1
+            assert self._pieces.keys() == other._pieces.keys()
+            for shape0, f0 in self._pieces.items():
+                f1 = other._pieces[shape0]
                 new_pieces[shape0] = f0 * f1
             return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction({shape: f * other for shape, f in self._pieces.items()}, self.tdim)
@@ -261,8 +269,9 @@ class PiecewiseFunction(AnyFunction):
         """Multiply."""
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
-            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-                assert shape0 == shape1
+            assert self._pieces.keys() == other._pieces.keys()
+            for shape0, f0 in self._pieces.items():
+                f1 = other._pieces[shape0]
                 new_pieces[shape0] = f1 * f0
             return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction({shape: other * f for shape, f in self._pieces.items()}, self.tdim)
@@ -271,8 +280,9 @@ class PiecewiseFunction(AnyFunction):
         """Multiply."""
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
-            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-                assert shape0 == shape1
+            assert self._pieces.keys() == other._pieces.keys()
+            for shape0, f0 in self._pieces.items():
+                f1 = other._pieces[shape0]
                 new_pieces[shape0] = f0 @ f1
             return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction({shape: f @ other for shape, f in self._pieces.items()}, self.tdim)
@@ -281,8 +291,9 @@ class PiecewiseFunction(AnyFunction):
         """Multiply."""
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
-            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-                assert shape0 == shape1
+            assert self._pieces.keys() == other._pieces.keys()
+            for shape0, f0 in self._pieces.items():
+                f1 = other._pieces[shape0]
                 new_pieces[shape0] = f1 @ f0
             return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction({shape: other @ f for shape, f in self._pieces.items()}, self.tdim)
@@ -291,8 +302,9 @@ class PiecewiseFunction(AnyFunction):
         """Raise to a power."""
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
-            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-                assert shape0 == shape1
+            assert self._pieces.keys() == other._pieces.keys()
+            for shape0, f0 in self._pieces.items():
+                f1 = other._pieces[shape0]
                 new_pieces[shape0] = f0**f1
             return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction({shape: f**other for shape, f in self._pieces.items()}, self.tdim)
-- 
2.43.0


From 78e15bca66c3cb22d611ca2343ad8fae32c1dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 24/76] fix: iterators over one vector function are independent

---
 symfem/functions.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 09d36b5..c16f4a7 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1269,16 +1269,7 @@ class VectorFunction(AnyFunction):
 
     def __iter__(self):
         """Get iterable."""
-        self.iter_n = 0
-        return self
-
-    def __next__(self):
-        """Get next item."""
-        if self.iter_n < len(self._vec):
-            self.iter_n += 1
-            return self._vec[self.iter_n - 1]
-        else:
-            raise StopIteration
+        return iter(self._vec)
 
     def plot_values(
         self,
-- 
2.43.0


From b3ff46407ee9169e5298c24a1af27d5be1798c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 25/76] fix: vector @ matrix and matrix.dot for non-square
 matrices

---
 symfem/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index c16f4a7..fff1355 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1063,8 +1063,8 @@ class VectorFunction(AnyFunction):
     def __matmul__(self, other: typing.Any) -> VectorFunction:
         """Multiply."""
         if isinstance(other, MatrixFunction):
-            assert other.shape[1] == len(self)
-            return VectorFunction([other.col(i).dot(self) for i in range(other.shape[0])])
+            assert other.shape[0] == len(self)
+            return VectorFunction([other.col(i).dot(self) for i in range(other.shape[1])])
         return NotImplemented
 
     def __rmatmul__(self, other: typing.Any) -> VectorFunction:
@@ -1685,7 +1685,7 @@ class MatrixFunction(AnyFunction):
             assert self.shape == other.shape
             out = ScalarFunction(0)
             for i in range(self.shape[0]):
-                for j in range(self.shape[0]):
+                for j in range(self.shape[1]):
                     out += self._mat[i][j] * other._mat[i][j]
             return out
 
-- 
2.43.0


From 91ffe86eb0b2955705f78e589efe918d7ae53f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 26/76] fix: adding a list of another length to a vector or
 matrix is refused

---
 symfem/functions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symfem/functions.py b/symfem/functions.py
index fff1355..7346342 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -998,6 +998,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f + j._f for i, j in zip(self._vec, other._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i._f + j for i, j in zip(self._vec, other)))
         return NotImplemented
 
@@ -1007,6 +1008,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f + j._f for i, j in zip(other._vec, self._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i + j._f for i, j in zip(other, self._vec)))
         return NotImplemented
 
@@ -1016,6 +1018,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f - j._f for i, j in zip(self._vec, other._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i._f - j for i, j in zip(self._vec, other)))
         return NotImplemented
 
@@ -1025,6 +1028,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f - j._f for i, j in zip(other._vec, self._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i - j._f for i, j in zip(other, self._vec)))
         return NotImplemented
 
@@ -1425,6 +1429,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(self._mat) == len(other)
             data = []
             for i, j in zip(self._mat, other):
                 assert isinstance(j, (list, tuple)) and len(j) == self.shape[1]
@@ -1452,6 +1457,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(self._mat) == len(other)
             data = []
             for i, j in zip(other, self._mat):
                 assert isinstance(i, (list, tuple)) and len(i) == self.shape[1]
@@ -1479,6 +1485,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(self._mat) == len(other)
             data = []
             for i, j in zip(self._mat, other):
                 assert isinstance(j, (list, tuple)) and len(j) == self.shape[1]
@@ -1506,6 +1513,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(self._mat) == len(other)
             data = []
             for i, j in zip(other, self._mat):
                 assert isinstance(i, (list, tuple)) and len(i) == self.shape[1]
-- 
2.43.0


From 562583ab39c290e3ead302d83cba359b9443f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 27/76] fix: parse_function_input accepts the sympy matrices it
 documents

---
 symfem/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/functions.py b/symfem/functions.py
index 7346342..ba35c0b 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1850,6 +1850,8 @@ def parse_function_input(f: FunctionInput) -> AnyFunction:
                 assert not isinstance(i, (tuple, list))
                 vec.append(i)
             return VectorFunction(tuple(vec))
+    if isinstance(f, sympy.matrices.dense.MutableDenseMatrix):
+        return MatrixFunction(f)
     raise ValueError(f"Could not parse input function: {f}")
 
 
-- 
2.43.0


From b475c2c80b40be209e4274854b5e979616be8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:51 +0000
Subject: [PATCH 28/76] fix: a point substituted into a piecewise function is
 matched with its variables

---
 symfem/piecewise_functions.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 7921de4..69be37d 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -15,7 +15,6 @@ from symfem.functions import (
     SympyFormat,
     ValuesToSubstitute,
     VectorFunction,
-    _to_sympy_format,
     parse_function_input,
 )
 from symfem.geometry import (
@@ -326,14 +325,10 @@ class PiecewiseFunction(AnyFunction):
         if isinstance(values, AnyFunction):
             values = values.as_sympy()
 
-        if isinstance(values, (tuple, list)) and len(values) == self.tdim:
-            for i in values:
-                i_s = _to_sympy_format(i)
-                assert isinstance(i_s, sympy.core.expr.Expr)
-                if not i_s.is_constant():
-                    break
-            else:
-                return self.get_piece(tuple(values)).subs(vars, values)
+        if isinstance(vars, (tuple, list)) and isinstance(values, (tuple, list)):
+            point = {var: sympy.sympify(value) for var, value in zip(vars, values)}
+            if all(i in point and point[i].is_constant() for i in x[: self.tdim]):
+                return self.get_piece(tuple(point[i] for i in x[: self.tdim])).subs(vars, values)
 
         return PiecewiseFunction(
             {shape: f.subs(vars, values) for shape, f in self._pieces.items()}, self.tdim
-- 
2.43.0


From 7865fc7428911dcc01af1eae3f74cfad6b4749f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 29/76] fix: integral over a point is a function like all other
 integrals

---
 symfem/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index ba35c0b..7d5cbc5 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -809,7 +809,7 @@ class ScalarFunction(AnyFunction):
             for i in limits:
                 assert len(i) == 2
                 out = out.subs(*i)
-            return out
+            return ScalarFunction(out)
 
         out *= domain.jacobian()
         return ScalarFunction(out.integrate(*limits))
-- 
2.43.0


From c17b18316e5055f8ed156ce9bd192a43d5348648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 30/76] fix: Buffa-Christiansen functions are continuous across
 the edges inside the dual cell

---
 symfem/elements/dual.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/symfem/elements/dual.py b/symfem/elements/dual.py
index ecb5be9..ec9a99b 100644
--- a/symfem/elements/dual.py
+++ b/symfem/elements/dual.py
@@ -302,8 +302,8 @@ class BuffaChristiansen(DualCiarletElement):
             dual_coefficients[j][2 * j - 1][0] = sympy.Rational(-1, 2)
             N = 2 * reference.number_of_triangles
             for i in range(N - 1):
-                dual_coefficients[j][(2 * j + i) % N][2] = sympy.Rational(i + 1 - N // 2, N)
-                dual_coefficients[j][(2 * j + i + 1) % N][1] = sympy.Rational(i + 1 - N // 2, N)
+                dual_coefficients[j][(2 * j + i) % N][1] = sympy.Rational(i + 1 - N // 2, N)
+                dual_coefficients[j][(2 * j + i + 1) % N][2] = sympy.Rational(i + 1 - N // 2, N)
 
         dof_entities = [(0, i) for i in range(0, len(reference.vertices), 2)]
         dof_directions: typing.List[PointType] = []
@@ -367,12 +367,12 @@ class RotatedBuffaChristiansen(DualCiarletElement):
         ]
 
         for j in range(reference.number_of_triangles):
-            dual_coefficients[j][2 * j][0] = sympy.Rational(-1, 2)
-            dual_coefficients[j][2 * j - 1][0] = sympy.Rational(-1, 2)
+            dual_coefficients[j][2 * j][0] = sympy.Rational(1, 2)
+            dual_coefficients[j][2 * j - 1][0] = sympy.Rational(1, 2)
             N = 2 * reference.number_of_triangles
             for i in range(N - 1):
-                dual_coefficients[j][(2 * j + i) % N][2] = sympy.Rational(N // 2 - 1 - i, N)
-                dual_coefficients[j][(2 * j + i + 1) % N][1] = sympy.Rational(N // 2 - 1 - i, N)
+                dual_coefficients[j][(2 * j + i) % N][1] = sympy.Rational(N // 2 - 1 - i, N)
+                dual_coefficients[j][(2 * j + i + 1) % N][2] = sympy.Rational(N // 2 - 1 - i, N)
 
         dof_entities = [(0, i) for i in range(0, len(reference.vertices), 2)]
         dof_directions: typing.List[PointType] = []
-- 
2.43.0


From a559fe6fda6e86a005d49b225fc0bbca36be6106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 31/76] fix: rotated Buffa-Christiansen functions are H(curl)
 conforming

---
 symfem/elements/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/dual.py b/symfem/elements/dual.py
index ec9a99b..4d1e0cc 100644
--- a/symfem/elements/dual.py
+++ b/symfem/elements/dual.py
@@ -412,6 +412,6 @@ class RotatedBuffaChristiansen(DualCiarletElement):
     references = ["dual polygon"]
     min_order = 1
     max_order = 1
-    continuity = "H(div)"
+    continuity = "H(curl)"
     value_type = "vector dual"
     last_updated = "2023.05"
-- 
2.43.0


From 7ca6d71303e066eb7e6627579cddb526195c60f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 32/76] fix: H(div) and H(curl) serendipity polynomials in
 other variables

---
 symfem/polynomials/polysets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index 72b52b7..25f5122 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -387,7 +387,7 @@ def Hdiv_serendipity(
                     )
                 )
 
-        return [i.curl() for i in a]
+        return [i.subs(variables, x).curl().subs(x, variables) for i in a]
 
     raise NotImplementedError()
 
@@ -446,7 +446,7 @@ def Hcurl_serendipity(
                     )
                 )
 
-        for p in serendipity_set_1d(domain_dim, order + 1):
+        for p in serendipity_set_1d(domain_dim, order + 1, variables):
             out.append(VectorFunction(tuple(p.diff(i) for i in variables)))
         return out
 
-- 
2.43.0


From b090a45f77ed7c9d997d017d4c13ead6cfd7bbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 33/76] fix: orthonormal basis in permuted variables

---
 symfem/polynomials/legendre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/polynomials/legendre.py b/symfem/polynomials/legendre.py
index a786642..46e65f7 100644
--- a/symfem/polynomials/legendre.py
+++ b/symfem/polynomials/legendre.py
@@ -678,7 +678,7 @@ def orthonormal_basis(
     ref = create_reference(cell)
     if variables is None:
         variables = x
-    norms = [sympy.sqrt((f**2).integral(ref, dummy_vars=variables)) for f in poly[0]]
+    norms = [sympy.sqrt((f**2).integral(ref, variables, variables)) for f in poly[0]]
     for i, n in enumerate(norms):
         for j in range(len(poly)):
             poly[j][i] /= n
-- 
2.43.0


From 593b8d292d406930e3fd4b3fdcf7cc538bdd33af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 34/76] fix: equispaced rules with fewer than two points are
 refused

---
 symfem/quadrature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/quadrature.py b/symfem/quadrature.py
index ed3b97f..c7e40ee 100644
--- a/symfem/quadrature.py
+++ b/symfem/quadrature.py
@@ -18,6 +18,8 @@ def equispaced(n: int) -> typing.Tuple[typing.List[Scalar], typing.List[Scalar]]
     Returns:
         Quadrature points and weights
     """
+    if n < 2:
+        raise ValueError("An equispaced rule has at least two points")
     return (
         [sympy.Rational(i, n - 1) for i in range(n)],
         [
-- 
2.43.0


From c3caf80186edcb270124e6cd56519a0a4b7388fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 35/76] fix: processes that start together can all create the
 cache directory

---
 symfem/caching.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/symfem/caching.py b/symfem/caching.py
index 53ff17a..8f67e00 100644
--- a/symfem/caching.py
+++ b/symfem/caching.py
@@ -7,14 +7,15 @@ from hashlib import sha256
 import sympy
 from appdirs import user_cache_dir
 
-if not os.path.isdir(user_cache_dir()):
-    os.mkdir(user_cache_dir())
 CACHE_DIR = user_cache_dir("symfem")
 CACHE_FORMAT = "1"
 if os.path.isfile(CACHE_DIR):
-    os.remove(CACHE_DIR)
-if not os.path.isdir(CACHE_DIR):
-    os.mkdir(CACHE_DIR)
+    try:
+        os.remove(CACHE_DIR)
+    except OSError:
+        # Another process has replaced the file already
+        pass
+os.makedirs(CACHE_DIR, exist_ok=True)
 
 assert os.path.isdir(CACHE_DIR)
 
-- 
2.43.0


From 6a3bc9826c34ed17887cc413dd04642aca695c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 36/76] fix: cached matrices are written in one step and
 damaged ones are not used

---
 symfem/caching.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/symfem/caching.py b/symfem/caching.py
index 8f67e00..49e553f 100644
--- a/symfem/caching.py
+++ b/symfem/caching.py
@@ -1,6 +1,7 @@
 """Functions to cache matrices."""
 
 import os
+import tempfile
 import typing
 from hashlib import sha256
 
@@ -8,7 +9,7 @@ import sympy
 from appdirs import user_cache_dir
 
 CACHE_DIR = user_cache_dir("symfem")
-CACHE_FORMAT = "1"
+CACHE_FORMAT = "2"
 if os.path.isfile(CACHE_DIR):
     try:
         os.remove(CACHE_DIR)
@@ -37,13 +38,17 @@ def load_cached_matrix(
     hashed_id = sha256(cache_id.encode("utf-8")).hexdigest()
     filename = os.path.join(CACHE_DIR, f"{matrix_type}{CACHE_FORMAT}-{hashed_id}.matrix")
     try:
-        with open(filename) as f:
-            mat = matrix_from_string(f.read())
-        if mat.rows != size[0] or mat.cols != size[1]:
-            return None
-        return mat
-    except FileNotFoundError:
+        with open(filename, encoding="utf-8") as f:
+            checksum, _, mstr = f.read().partition("\n")
+    except (OSError, UnicodeDecodeError):
         return None
+    # A damaged file is treated as if it were not there
+    if checksum != sha256(mstr.encode("utf-8")).hexdigest():
+        return None
+    mat = matrix_from_string(mstr)
+    if mat.rows != size[0] or mat.cols != size[1]:
+        return None
+    return mat
 
 
 def save_cached_matrix(
@@ -58,8 +63,19 @@ def save_cached_matrix(
     """
     hashed_id = sha256(cache_id.encode("utf-8")).hexdigest()
     filename = os.path.join(CACHE_DIR, f"{matrix_type}{CACHE_FORMAT}-{hashed_id}.matrix")
-    with open(filename, "w") as f:
-        f.write(matrix_to_string(matrix))
+    mstr = matrix_to_string(matrix)
+    checksum = sha256(mstr.encode("utf-8")).hexdigest()
+    # Write to a temporary file so that other processes never see part of a matrix
+    try:
+        handle, tempname = tempfile.mkstemp(dir=CACHE_DIR)
+    except OSError:
+        return
+    try:
+        with open(handle, "w", encoding="utf-8") as f:
+            f.write(f"{checksum}\n{mstr}")
+        os.replace(tempname, filename)
+    except OSError:
+        os.remove(tempname)
 
 
 def matrix_to_string(m: sympy.matrices.dense.MutableDenseMatrix) -> str:
-- 
2.43.0


From 195ef6f75aee989a24d077861941c9f03d6703f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 37/76] fix: user-defined elements no longer get matrices of
 another class or definition

---
 symfem/finite_element.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 3d0250e..ad13506 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -685,9 +685,11 @@ class CiarletElement(FiniteElement):
         Returns:
             The dual matrix
         """
-        if caching and self.cache:
+        # Only use the cache for classes that say when their definition was last updated
+        cls = self.__class__
+        if caching and self.cache and "last_updated" in vars(cls):
             cid = (
-                f"{self.__class__.__name__} {self.order} {self.reference.vertices} "
+                f"{cls.__module__}.{cls.__qualname__} {self.order} {self.reference.vertices} "
                 f"{self.init_kwargs()} {self.last_updated}"
             )
             matrix_type = "dualinv" if inverse else "dual"
-- 
2.43.0


From 9aaa43be5f4271f9c3564ed43cd87c5ada447f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 38/76] fix: DOF points on cells with irrational vertices

---
 symfem/elements/regge.py | 2 +-
 symfem/functionals.py    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/symfem/elements/regge.py b/symfem/elements/regge.py
index 47f04b8..9b77146 100644
--- a/symfem/elements/regge.py
+++ b/symfem/elements/regge.py
@@ -77,7 +77,7 @@ class Regge(CiarletElement):
                                         tuple(
                                             o
                                             + sum(
-                                                sympy.Rational(a[j] * b, order + 2)
+                                                sympy.S(a[j] * b) / (order + 2)
                                                 for a, b in zip(entity.axes, i[::-1])
                                             )
                                             for j, o in enumerate(entity.origin)
diff --git a/symfem/functionals.py b/symfem/functionals.py
index 12f88c3..105791a 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -988,7 +988,7 @@ class IntegralAgainst(BaseFunctional):
         Returns:
             The point
         """
-        return tuple(sympy.Rational(sum(i), len(i)) for i in zip(*self.integral_domain.vertices))
+        return tuple(sympy.S(sum(i)) / len(i) for i in zip(*self.integral_domain.vertices))
 
     def _eval_symbolic(self, function: AnyFunction) -> AnyFunction:
         """Apply to the functional to a function.
@@ -1072,7 +1072,7 @@ class IntegralOfDivergenceAgainst(BaseFunctional):
         Returns:
             The point
         """
-        return tuple(sympy.Rational(sum(i), len(i)) for i in zip(*self.integral_domain.vertices))
+        return tuple(sympy.S(sum(i)) / len(i) for i in zip(*self.integral_domain.vertices))
 
     def _eval_symbolic(self, function: AnyFunction) -> AnyFunction:
         """Apply to the functional to a function.
@@ -1155,7 +1155,7 @@ class IntegralOfDirectionalMultiderivative(BaseFunctional):
         Returns:
             The point
         """
-        return tuple(sympy.Rational(sum(i), len(i)) for i in zip(*self.integral_domain.vertices))
+        return tuple(sympy.S(sum(i)) / len(i) for i in zip(*self.integral_domain.vertices))
 
     def _eval_symbolic(self, function: AnyFunction) -> AnyFunction:
         """Apply to the functional to a function.
-- 
2.43.0


From 45528ddc1ed0f682cf4c82360908740278df4205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 39/76] fix: basis functions from a tensor factorisation do not
 depend on what was asked before

---
 symfem/finite_element.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index ad13506..49e5081 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -721,21 +721,21 @@ class CiarletElement(FiniteElement):
         Returns:
             The basis functions
         """
+        if use_tensor_factorisation:
+            return self._get_basis_functions_tensor()
+
         if self._basis_functions is None:
-            if use_tensor_factorisation:
-                self._basis_functions = self._get_basis_functions_tensor()
-            else:
-                minv = self.get_dual_matrix(inverse=True)
+            minv = self.get_dual_matrix(inverse=True)
 
-                sfs: typing.List[AnyFunction] = []
-                pb = self.get_polynomial_basis()
-                for i, dof in enumerate(self.dofs):
-                    sf = ScalarFunction(minv[i, 0]) * pb[0]
-                    for c, d in zip(minv.row(i)[1:], pb[1:]):
-                        sf += ScalarFunction(c) * d
-                    sfs.append(sf)
+            sfs: typing.List[AnyFunction] = []
+            pb = self.get_polynomial_basis()
+            for i, dof in enumerate(self.dofs):
+                sf = ScalarFunction(minv[i, 0]) * pb[0]
+                for c, d in zip(minv.row(i)[1:], pb[1:]):
+                    sf += ScalarFunction(c) * d
+                sfs.append(sf)
 
-                self._basis_functions = sfs
+            self._basis_functions = sfs
 
         assert isinstance(self._basis_functions, list)
 
-- 
2.43.0


From 42ac2d7c0ab36c27618ce8a4d96392f40d472f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 40/76] fix: tensor factorisations of Q elements with other
 variants and on other cells

---
 symfem/elements/q.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/q.py b/symfem/elements/q.py
index b70a234..188ef2f 100644
--- a/symfem/elements/q.py
+++ b/symfem/elements/q.py
@@ -104,14 +104,17 @@ class Q(CiarletElement):
         Returns:
             The tensor factorisation
         """
-        if self.variant == "lobatto":
+        if self.variant == "lobatto" or self.reference != self.reference.default_reference():
             return super().get_tensor_factorisation()
         from symfem import create_element
 
-        interval_q = create_element("interval", "Lagrange", self.order)
+        interval_q = create_element("interval", "Lagrange", self.order, variant=self.variant)
 
         if self.order == 0:
             perm = [0]
+        elif self.variant == "legendre":
+            # The DOFs are numbered as the orthonormal polynomials are
+            perm = list(range((self.order + 1) ** self.reference.tdim))
         elif self.reference.name == "quadrilateral":
             n = self.order - 1
             perm = [0, 2] + [4 + n + i for i in range(n)]
-- 
2.43.0


From f368fa2b7225770151d4d675b1a26c4182538bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 41/76] fix: dual elements refuse tensor factorisation like
 other elements

---
 symfem/elements/dual.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfem/elements/dual.py b/symfem/elements/dual.py
index 4d1e0cc..bef0da8 100644
--- a/symfem/elements/dual.py
+++ b/symfem/elements/dual.py
@@ -92,7 +92,8 @@ class DualCiarletElement(FiniteElement):
         Returns:
             The basis functions
         """
-        assert not use_tensor_factorisation
+        if use_tensor_factorisation:
+            return self._get_basis_functions_tensor()
 
         if self._basis_functions is None:
             from symfem import create_element
-- 
2.43.0


From 92077577a018adaefa8530a77ce1e7f070b950e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 42/76] fix: TikZ pictures do not depend on the pictures drawn
 before

---
 symfem/plotting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index 0f6d6d2..1b5a65e 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -116,6 +116,10 @@ class Colors:
             return self._tikz[name]
         return name
 
+    def clear_tikz(self):
+        """Forget the colours used in earlier Tikz pictures."""
+        self._tikz = {}
+
     def get_tikz_definitions(self) -> str:
         """Get the definitions of colours used in Tikz.
 
@@ -1116,6 +1120,8 @@ class Picture:
         tikz = self.tex_comment
         tikz += "\\begin{tikzpicture}[x=1cm,y=1cm]\n"
 
+        # Only define the colors used in this picture
+        colors.clear_tikz()
         inner_tikz = ""
         for e in self.elements:
             inner_tikz += e.as_tikz(map_pt)
-- 
2.43.0


From e71b7d86ba729ac1c6bf45746938331ea3776316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 43/76] fix: tabulate_basis refuses unknown orders for scalar
 elements too

---
 symfem/finite_element.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 49e5081..fb8da43 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -248,6 +248,9 @@ class FiniteElement(ABC):
         Returns:
             The tabulated basis functions
         """
+        if order not in ["xyz,xyz", "xxyyzz", "xx,yy,zz", "xyzxyz"]:
+            raise ValueError(f"Unknown order: {order}")
+
         points = parse_set_of_points_input(points_in)
         tabbed = [
             tuple(b.subs(x, p).as_sympy() for b in self.get_basis_functions()) for p in points
@@ -267,13 +270,12 @@ class FiniteElement(ABC):
             for row in tabbed:
                 output.append(tuple(tuple(j for j in i) for i in zip(*row)))
             return output
-        elif order == "xyzxyz":
+        else:
+            assert order == "xyzxyz"
             output = []
             for row in tabbed:
                 output.append(tuple(j for i in row for j in i))
             return output
-        else:
-            raise ValueError(f"Unknown order: {order}")
 
     def tabulate_basis_float(self, points_in: SetOfPointsInput) -> TabulatedBasis:
         """Evaluate the basis functions of the element at the given points in xyz,xyz order.
-- 
2.43.0


From 9ac9f959f2e4b7b90aa0cb015ecafa124bc64711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 44/76] fix: direct serendipity interior functions have degree
 order - 4

---
 symfem/elements/direct_serendipity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/direct_serendipity.py b/symfem/elements/direct_serendipity.py
index 9694551..b24447c 100644
--- a/symfem/elements/direct_serendipity.py
+++ b/symfem/elements/direct_serendipity.py
@@ -73,7 +73,7 @@ class DirectSerendipity(DirectElement):
 
         # Functions in interior
         if order >= 4:
-            for f in DPC(reference, 4, "equispaced").get_basis_functions():
+            for f in DPC(reference, order - 4, "equispaced").get_basis_functions():
                 basis_functions.append(f * x[0] * x[1] * (1 - x[0]) * (1 - x[1]))
                 basis_entities.append((2, 0))
 
-- 
2.43.0


From c25279ccf75c96ce8cae6045199394da53882da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 45/76] fix: the Wu-Xu element on a tetrahedron is not
 continuous

---
 symfem/elements/wu_xu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symfem/elements/wu_xu.py b/symfem/elements/wu_xu.py
index af97667..664cd24 100644
--- a/symfem/elements/wu_xu.py
+++ b/symfem/elements/wu_xu.py
@@ -101,6 +101,9 @@ class WuXu(CiarletElement):
                     )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
+        if reference.name == "tetrahedron":
+            # The DOFs on a face do not determine the function's values there
+            self.continuity = "L2"
 
     @property
     def lagrange_subdegree(self) -> int:
-- 
2.43.0


From 149693de209b92fe388ce23878fb259749225626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 46/76] fix: plot positions of interior DOFs of direct elements
 are inside the cell

---
 symfem/finite_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index fb8da43..40695fd 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -961,7 +961,7 @@ class DirectElement(FiniteElement):
                 )
             elif dim == 3:
                 ne = 1
-                while ne * (ne + 1) * (ne + 2) // 6 < n:
+                while ne * (ne + 1) * (ne + 2) // 6 < dof_count:
                     ne += 1
                 i = 0
                 while entity_n >= (ne - i) * (ne + 1 - i) // 2:
@@ -973,7 +973,7 @@ class DirectElement(FiniteElement):
                     j += 1
                 positions.append(
                     tuple(
-                        o + sympy.Rational((entity_n + 1) * a + (j + 1) * b + (i + 1) * c, n + 1)
+                        o + sympy.Rational((entity_n + 1) * a + (j + 1) * b + (i + 1) * c, ne + 3)
                         for o, a, b, c in zip(sub_ref.origin, *sub_ref.axes)
                     )
                 )
-- 
2.43.0


From d28c1317a953405a5b3a136527199982adbdb7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:13 +0000
Subject: [PATCH 47/76] fix: Bernstein elements on tetrahedra have interior
 DOFs

---
 symfem/elements/bernstein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/bernstein.py b/symfem/elements/bernstein.py
index a9ad17d..071bbe6 100644
--- a/symfem/elements/bernstein.py
+++ b/symfem/elements/bernstein.py
@@ -222,7 +222,7 @@ class Bernstein(CiarletElement):
                             )
                         )
 
-            if reference.name == "tetrahedon":
+            if reference.name == "tetrahedron":
                 for i in range(1, order):
                     for j in range(1, order - i):
                         for k in range(1, order - i - j):
-- 
2.43.0


From 0d526b7c9d8eb3b87ef9df20016a7c5122280501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 48/76] fix: "dual polygon" without a number of triangles is an
 unknown cell type

---
 symfem/create.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/create.py b/symfem/create.py
index e255de2..bce4239 100644
--- a/symfem/create.py
+++ b/symfem/create.py
@@ -92,7 +92,7 @@ def create_reference(
         return _references.Prism(*args)
     elif cell_type == "pyramid":
         return _references.Pyramid(*args)
-    elif cell_type.startswith("dual polygon"):
+    elif cell_type.startswith("dual polygon("):
         n_tri = int(cell_type.split("(")[1].split(")")[0])
         return _references.DualPolygon(n_tri, *args)
     else:
-- 
2.43.0


From 7413690d672aa1a73109426d1046c268dc574c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 49/76] fix: Alfeld-Sokorina elements are vector valued

---
 symfem/elements/alfeld_sorokina.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/alfeld_sorokina.py b/symfem/elements/alfeld_sorokina.py
index 7c21d6b..9e60b30 100644
--- a/symfem/elements/alfeld_sorokina.py
+++ b/symfem/elements/alfeld_sorokina.py
@@ -146,5 +146,5 @@ class AlfeldSorokina(CiarletElement):
     min_order = 2
     max_order = 2
     continuity = "C0"
-    value_type = "scalar macro"
+    value_type = "vector macro"
     last_updated = "2023.05"
-- 
2.43.0


From 6debbdc9c8c6f06bd5879ec71ec1d73afb99fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 50/76] fix: matrix Lagrange and vector Q elements work with
 the legendre variant

---
 symfem/elements/lagrange.py | 14 ++++++++++++--
 symfem/elements/q.py        |  9 ++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/symfem/elements/lagrange.py b/symfem/elements/lagrange.py
index d1869bc..843ccfb 100644
--- a/symfem/elements/lagrange.py
+++ b/symfem/elements/lagrange.py
@@ -216,7 +216,11 @@ class MatrixLagrange(CiarletElement):
         ]
         for p in scalar_space.dofs:
             for d in directions:
-                dofs.append(DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity))
+                if isinstance(p, IntegralAgainst):
+                    f = tuple(tuple(p.f * j for j in i) for i in d)
+                    dofs.append(IntegralAgainst(reference, f, entity=p.entity))
+                else:
+                    dofs.append(DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity))
 
         poly: typing.List[FunctionInput] = []
         poly += [
@@ -315,7 +319,13 @@ class SymmetricMatrixLagrange(CiarletElement):
 
             for p in scalar_space.dofs:
                 for d in directions:
-                    dofs.append(DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity))
+                    if isinstance(p, IntegralAgainst):
+                        f = tuple(tuple(p.f * j for j in i) for i in d)
+                        dofs.append(IntegralAgainst(reference, f, entity=p.entity))
+                    else:
+                        dofs.append(
+                            DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity)
+                        )
 
             super().__init__(
                 reference,
diff --git a/symfem/elements/q.py b/symfem/elements/q.py
index 188ef2f..fe5188b 100644
--- a/symfem/elements/q.py
+++ b/symfem/elements/q.py
@@ -205,7 +205,14 @@ class VectorQ(CiarletElement):
             ]
             for p in scalar_space.dofs:
                 for d in directions:
-                    dofs.append(DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity))
+                    if variant == "legendre":
+                        assert isinstance(p, IntegralAgainst)
+                        f = tuple(p.f * i for i in d)
+                        dofs.append(IntegralAgainst(reference, f, entity=p.entity))
+                    else:
+                        dofs.append(
+                            DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity)
+                        )
 
             poly += quolynomial_set_vector(reference.tdim, reference.tdim, order)
 
-- 
2.43.0


From 8acb5495602bce9072dd72f6c200a47b2c4367c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 51/76] fix: trimmed serendipity Hcurl elements have their
 interior DOFs from order 4

---
 symfem/elements/trimmed_serendipity.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/symfem/elements/trimmed_serendipity.py b/symfem/elements/trimmed_serendipity.py
index 3540f5d..293d7e5 100644
--- a/symfem/elements/trimmed_serendipity.py
+++ b/symfem/elements/trimmed_serendipity.py
@@ -108,6 +108,21 @@ class TrimmedSerendipityHcurl(CiarletElement):
                     dofs.append(
                         IntegralAgainst(reference, f2, entity=(2, f_n), mapping="covariant")
                     )
+        if order >= 4 and reference.tdim == 3:
+            # Curls of homogeneous vector polynomials of degree order - 3
+            n = order - 3
+            for i in range(n + 1):
+                for j in range(n + 1 - i):
+                    p = x[0] ** i * x[1] ** j * x[2] ** (n - i - j)
+                    fs = [] if i == 0 else [VectorFunction((0, p, 0)).curl()]
+                    if i + j > 0:
+                        fs.append(VectorFunction((0, 0, p)).curl())
+                    for f in fs:
+                        dofs.append(
+                            IntegralAgainst(
+                                reference, f.subs(x, tuple(t)), entity=(3, 0), mapping="covariant"
+                            )
+                        )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
         self.variant = variant
-- 
2.43.0


From a24c5e530950e77c26d03738e0c1d7e355c359d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 52/76] fix: saving a picture to a list of files writes all of
 them

---
 symfem/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index 1b5a65e..b202aab 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -1150,7 +1150,7 @@ class Picture:
         if isinstance(filename, list):
             for fn in filename:
                 self.save(fn, plot_options)
-                return
+            return
 
         assert isinstance(filename, str)
         if filename.endswith(".svg"):
-- 
2.43.0


From c42d63d70bd3700b428b199f9bdcbaa93ea53227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 53/76] fix: plots of one function with different value scales
 are different

---
 symfem/functions.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 7d5cbc5..d41576f 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -543,7 +543,7 @@ class ScalarFunction(AnyFunction):
             self._f = f
         assert isinstance(self._f, sympy.core.expr.Expr)
         self._plot_beziers: typing.Dict[
-            typing.Tuple[symfem.references.Reference, int],
+            typing.Tuple[symfem.references.Reference, int, sympy.core.expr.Expr],
             typing.List[typing.Tuple[PointType, PointType, PointType, PointType]],
         ] = {}
 
@@ -851,8 +851,9 @@ class ScalarFunction(AnyFunction):
 
         assert isinstance(img, Picture)
 
-        if (reference, n) not in self._plot_beziers:
-            self._plot_beziers[(reference, n)] = []
+        key = (reference, n, value_scale)
+        if key not in self._plot_beziers:
+            self._plot_beziers[key] = []
             pts, pairs = reference.make_lattice_with_lines_float(n)
 
             value_scale *= sympy.Rational(5, 8)
@@ -876,7 +877,7 @@ class ScalarFunction(AnyFunction):
                 dj = deriv.subs(x, pj).dot(d_pj - pts[j]).as_sympy()
                 assert isinstance(di, sympy.core.expr.Expr)
                 assert isinstance(dj, sympy.core.expr.Expr)
-                self._plot_beziers[(reference, n)].append(
+                self._plot_beziers[key].append(
                     (
                         tuple(pi) + (evals[i],),
                         tuple(d_pi) + (evals[i] + di * value_scale,),
@@ -885,7 +886,7 @@ class ScalarFunction(AnyFunction):
                     )
                 )
 
-        for s, m1, m2, e in self._plot_beziers[(reference, n)]:
+        for s, m1, m2, e in self._plot_beziers[key]:
             img.add_bezier(s, m1, m2, e, colors.ORANGE)
 
     def with_floats(self) -> AnyFunction:
@@ -966,7 +967,7 @@ class VectorFunction(AnyFunction):
             assert i.is_scalar
 
         self._plot_arrows: typing.Dict[
-            typing.Tuple[symfem.references.Reference, int],
+            typing.Tuple[symfem.references.Reference, int, sympy.core.expr.Expr],
             typing.List[
                 typing.Tuple[typing.Tuple[sympy.core.expr.Expr, ...], VectorFunction, float]
             ],
@@ -1294,8 +1295,9 @@ class VectorFunction(AnyFunction):
 
         assert isinstance(img, Picture)
 
-        if (reference, n) not in self._plot_arrows:
-            self._plot_arrows[(reference, n)] = []
+        key = (reference, n, value_scale)
+        if key not in self._plot_arrows:
+            self._plot_arrows[key] = []
             pts = reference.make_lattice_float(n)
             value_scale /= 4
 
@@ -1305,8 +1307,8 @@ class VectorFunction(AnyFunction):
                 value = VectorFunction(tuple(sympy.Float(float(v)) for v in value_s))
                 value *= value_scale
                 size = float(value.norm() * 40)
-                self._plot_arrows[(reference, n)].append((p, VectorFunction(p) + value, size))
-        for p, q, size in self._plot_arrows[(reference, n)]:
+                self._plot_arrows[key].append((p, VectorFunction(p) + value, size))
+        for p, q, size in self._plot_arrows[key]:
             img.add_arrow(p, q, colors.ORANGE, size)
 
     def with_floats(self) -> AnyFunction:
-- 
2.43.0


From 4c49ba319eebe98052b2c7ac8f1d34434675082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 54/76] fix: plots of functions show the DOF once, with its
 entity

---
 symfem/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index d41576f..272466d 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -444,7 +444,7 @@ class AnyFunction(ABC):
                 if dim == reference.tdim:
                     self.plot_values(reference, img, value_scale)
 
-            if (dim, entity) in ze:
+            if dof_entity in ze or (dof_entity is None and ze == zentities[-1]):
                 if dof_direction is not None:
                     assert dof_point is not None and dof_n is not None
                     img.add_dof_arrow(
-- 
2.43.0


From fe0aeced773239432b92e9020002219250a77e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 55/76] fix: only DOF arrows that share their position are
 shifted

---
 symfem/finite_element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 40695fd..c988148 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -189,7 +189,7 @@ class FiniteElement(ABC):
                     if direction is not None:
                         shifted = False
                         for d2, p in enumerate(dof_positions):
-                            if d != d2 and d[0] == p:
+                            if d[3] != d2 and d[0] == p:
                                 shifted = True
                                 break
                         img.add_dof_arrow(d[0], direction, d[3], colors.entity(d[2][0]), shifted)
-- 
2.43.0


From 0c21cb8ab24203009d0105c4795bef3e09bd615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 56/76] fix: arrows of length zero are well formed SVG

---
 symfem/plotting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index b202aab..2fec495 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -383,6 +383,9 @@ class Arrow(PictureElement):
             f"<line x1='{s[0]}' y1='{s[1]}' x2='{e[0]}' y2='{e[1]}' "
             f"stroke='{self.color}' stroke-width='{self.width}' stroke-linecap='round' />\n"
         )
+        if s == e:
+            # An arrow of length zero has no head
+            return out
 
         ve = VectorFunction(self.end)
         vs = VectorFunction(self.start)
-- 
2.43.0


From ff1f4b3f4a987e24f8a7e895d665e927c13b8609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 57/76] fix: anchors of text in SVGs are valid SVG

---
 symfem/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index 2fec495..c61ab35 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -623,16 +623,16 @@ class Math(PictureElement):
         else:
             anchor = ""
             if self.anchor.startswith("north"):
-                anchor += "dominant-baseline:top"
+                anchor += "dominant-baseline:text-before-edge"
             elif self.anchor.startswith("south"):
-                anchor += "dominant-baseline:bottom"
+                anchor += "dominant-baseline:text-after-edge"
             else:
                 anchor += "dominant-baseline:middle"
             anchor += ";"
             if self.anchor.endswith("east"):
-                anchor += "text-anchor:right"
+                anchor += "text-anchor:end"
             elif self.anchor.endswith("west"):
-                anchor += "text-anchor:left"
+                anchor += "text-anchor:start"
             else:
                 anchor += "text-anchor:middle"
 
-- 
2.43.0


From cdd1fca57d169e6860930e3ef1bb5b5def429b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 58/76] fix: text in SVGs is escaped

---
 symfem/plotting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index c61ab35..08294df 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -2,6 +2,7 @@
 
 import typing
 from abc import ABC, abstractmethod
+from xml.sax.saxutils import escape
 
 import sympy
 
@@ -641,7 +642,7 @@ class Math(PictureElement):
         return (
             f"<text x='{c[0]}' y='{c[1]}' fill='{self.color}' font-size='{self.font_size}'"
             f" style=\"{anchor};font-family:'CMU Serif',serif;font-style:italic\">"
-            f"{self.math}</text>\n"
+            f"{escape(self.math)}</text>\n"
         )
 
     def as_tikz(self, map_pt: typing.Callable[[PointType], typing.Tuple[float, float]]) -> str:
@@ -1058,9 +1059,9 @@ class Picture:
             " xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>\n"
         )
         if self.title is not None:
-            img += f"<title>{self.title}</title>\n"
+            img += f"<title>{escape(self.title)}</title>\n"
         if self.desc is not None:
-            img += f"<desc>{self.desc}</desc>\n"
+            img += f"<desc>{escape(self.desc)}</desc>\n"
         if self.svg_metadata is not None:
             img += self.svg_metadata + "\n"
 
-- 
2.43.0


From b59610439a474f24681ebcb3a278da0facdabc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 59/76] fix: PNGs can have integer scales

---
 symfem/plotting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index 08294df..25434fb 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -1107,9 +1107,8 @@ class Picture:
         else:
             png_scale = 1.0
 
-        assert isinstance(png_scale, float)
         assert filename.endswith(".png")
-        svg2png(bytestring=self.as_svg(), write_to=filename, scale=png_scale)
+        svg2png(bytestring=self.as_svg(), write_to=filename, scale=float(png_scale))
 
     def as_tikz(self, filename: typing.Optional[str] = None) -> str:
         """Convert to tikz.
-- 
2.43.0


From 9c91a8bd90f649e84a49bac2a806b74c16f06bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 60/76] fix: TeX of a point evaluation of the divergence is
 that of the divergence

---
 symfem/functionals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 105791a..97582ef 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -931,7 +931,7 @@ class PointDivergenceEvaluation(BaseFunctional):
             Representation of the functional as TeX, and list of terms involved
         """
         desc = "\\boldsymbol{v}\\mapsto"
-        desc += "\\nabla a\\cdot\\boldsymbol{v}"
+        desc += "\\nabla\\cdot\\boldsymbol{v}"
         desc += "(" + ",".join([_to_tex(i, True) for i in self.dof_point()]) + ")"
         return desc, []
 
-- 
2.43.0


From 96856fccd4a8857a6f4e215a1756df7eb7370018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 61/76] fix: TeX of point derivatives shows the order of the
 derivative

---
 symfem/functionals.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 97582ef..2140b0d 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -457,20 +457,22 @@ class DerivativePointEvaluation(BaseFunctional):
         """
         assert isinstance(self.point, VectorFunction)
         if len(self.point) == 1:
-            desc = "v\\mapsto "
-            desc += f"v'({','.join([_to_tex(i, True) for i in self.point])})"
+            desc = "v\\mapsto v"
+            desc += "'" * self.derivative[0]
+            desc += f"({','.join([_to_tex(i, True) for i in self.point])})"
             return desc, []
         desc = "v\\mapsto"
-        desc += "\\frac{\\partial"
-        if sum(self.derivative) > 1:
-            desc += f"^{{{sum(self.derivative)}}}"
-        desc += "}{"
-        for v, i in zip("xyz", self.derivative):
-            if i > 0:
-                desc += f"\\partial {v}"
-                if i > 1:
-                    desc += f"^{{{i}}}"
-        desc += "}"
+        if sum(self.derivative) > 0:
+            desc += "\\frac{\\partial"
+            if sum(self.derivative) > 1:
+                desc += f"^{{{sum(self.derivative)}}}"
+            desc += "}{"
+            for v, i in zip("xyz", self.derivative):
+                if i > 0:
+                    desc += f"\\partial {v}"
+                    if i > 1:
+                        desc += f"^{{{i}}}"
+            desc += "}"
         desc += f"v({','.join([_to_tex(i, True) for i in self.point])})"
         return desc, []
 
-- 
2.43.0


From 11c5f806be98b140fc3f0866e68553b3edb1497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 62/76] fix: TeX of directional derivatives on an interval
 shows the direction

---
 symfem/functionals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 2140b0d..98d7084 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -555,6 +555,8 @@ class PointDirectionalDerivativeEvaluation(BaseFunctional):
         assert isinstance(self.dir, VectorFunction)
         if len(self.point) == 1:
             desc = "v\\mapsto "
+            if self.dir[0] != 1:
+                desc += f"({_to_tex(self.dir[0], True)})"
             desc += f"v'({','.join([_to_tex(i, True) for i in self.point])})"
             return desc, []
         desc = "v\\mapsto"
-- 
2.43.0


From cb2196f32e88a7853f90e812a150e1b1e385a690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 63/76] fix: TeX of point evaluations of matrix valued
 functions is a double contraction

---
 symfem/functionals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 98d7084..fab6aff 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -855,7 +855,7 @@ class DotPointEvaluation(BaseFunctional):
             desc += "\\\\".join([_to_tex(i) for i in self.vector])
             desc += "\\end{array}\\right)"
         elif self.vector != 1:
-            desc += f"\\cdot{_to_tex(self.vector)}"
+            desc += (":" if self.vector.is_matrix else "\\cdot") + _to_tex(self.vector)
         return desc, []
 
     name = "Dot point evaluation"
-- 
2.43.0


From bf7a6b9c2a92c2ae9cfa3e78dbc9b55264baed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 64/76] fix: TeX of an integral against a function uses one
 name for the function

---
 symfem/functionals.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index fab6aff..434d83d 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -1035,8 +1035,13 @@ class IntegralAgainst(BaseFunctional):
             desc += f"\\displaystyle\\int_{{{entity}}}"
             desc += _to_tex(self.f, True) + "\\cdot"
             desc += "\\mathbf{v}"
+        elif self.f.is_matrix:
+            desc = "\\mathbf{V}\\mapsto"
+            desc += f"\\displaystyle\\int_{{{entity}}}"
+            desc += "\\mathbf{V}:"
+            desc += _to_tex(self.f, True)
         else:
-            desc = "\\mathbf{v}\\mapsto"
+            desc = "v\\mapsto"
             desc += f"\\displaystyle\\int_{{{entity}}}"
             if self.f != 1:
                 desc += "(" + _to_tex(self.f, True) + ")"
-- 
2.43.0


From 84a2d22c44e54c060340f1b90ede9f42d3702018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 65/76] fix: TeX of an integral of directional derivatives uses
 one name for the function

---
 symfem/functionals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 434d83d..c793f7f 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -1208,7 +1208,7 @@ class IntegralOfDirectionalMultiderivative(BaseFunctional):
         """
         entity = self.entity_tex()
         entity_def = self.entity_definition()
-        desc = "\\mathbf{V}\\mapsto"
+        desc = "v\\mapsto"
         desc += "\\displaystyle "
         if self.scale != 1:
             desc += _to_tex(self.scale)
-- 
2.43.0


From 3f685f42b8aa49d22adb6616b16e26f099de81a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 66/76] fix: TeX of integral moments of matrix valued functions
 is a double contraction

---
 symfem/functionals.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index c793f7f..c580575 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -1386,6 +1386,11 @@ class IntegralMoment(BaseFunctional):
                     ]
                 )
                 desc += "\\end{array}\\right)"
+        elif self.f.is_matrix:
+            desc = "\\mathbf{V}\\mapsto"
+            desc += f"\\displaystyle\\int_{{{entity}}}"
+            desc += "\\mathbf{V}:"
+            desc += _to_tex(self.f)
         else:
             desc = "v\\mapsto"
             desc += f"\\displaystyle\\int_{{{entity}}}"
-- 
2.43.0


From d85bd54cef5a2e757e3ab16ef73fbe56dc5c0640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 67/76] fix: TeX of integral moments of derivatives shows the
 derivative

---
 symfem/functionals.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index c580575..d463b15 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -1467,6 +1467,22 @@ class DerivativeIntegralMoment(IntegralMoment):
         value = integrand.integral(self.integral_domain)
         return value
 
+    def get_tex(self) -> typing.Tuple[str, typing.List[str]]:
+        """Get a representation of the functional as TeX, and list of terms involved.
+
+        Returns:
+            Representation of the functional as TeX, and list of terms involved
+        """
+        assert isinstance(self.dot_with, VectorFunction)
+        desc = "v\\mapsto"
+        desc += f"\\displaystyle\\int_{{{self.entity_tex()}}}"
+        if self.f != 1:
+            desc += "(" + _to_tex(self.f) + ")"
+        desc += "\\nabla v\\cdot\\left(\\begin{array}{c}"
+        desc += "\\\\".join([_to_tex(i) for i in self.dot_with])
+        desc += "\\end{array}\\right)"
+        return desc, [self.entity_definition()]
+
     name = "Derivative integral moment"
 
 
-- 
2.43.0


From be84945673bcf6d7ebc0685e2b13d01883f14540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 68/76] fix: TeX of inner product integral moments includes
 their scaling

---
 symfem/functionals.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index d463b15..e974761 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -1784,6 +1784,16 @@ class InnerProductIntegralMoment(IntegralMoment):
         assert isinstance(il, tuple)
         return il
 
+    def _scaling_tex(self) -> str:
+        """Get the scaling of the integral (the Jacobian of the entity) in TeX format.
+
+        Returns:
+            TeX representation of the scaling
+        """
+        scale = self.integral_domain.jacobian() / self.integral_domain.volume()
+        entity_size = f"|{{{self.entity_tex()}}}|"
+        return entity_size if scale == 1 else _to_tex(scale) + entity_size
+
     def get_tex(self) -> typing.Tuple[str, typing.List[str]]:
         """Get a representation of the functional as TeX, and list of terms involved.
 
@@ -1794,6 +1804,7 @@ class InnerProductIntegralMoment(IntegralMoment):
         entity_def = self.entity_definition()
         desc = "\\boldsymbol{V}\\mapsto"
         desc += f"\\displaystyle\\int_{{{entity}}}"
+        desc += self._scaling_tex()
         if self.f != 1:
             desc += "(" + _to_tex(self.f, True) + ")"
         desc += _to_tex(self.inner_with_left) + "^{\\text{t}}"
@@ -1848,9 +1859,9 @@ class NormalInnerProductIntegralMoment(InnerProductIntegralMoment):
         entity_def = self.entity_definition()
         desc = "\\mathbf{V}\\mapsto"
         desc += f"\\displaystyle\\int_{{{entity}}}"
+        desc += self._scaling_tex()
         if self.f != 1:
             desc += "(" + _to_tex(self.f, True) + ")"
-        desc += f"|{{{entity}}}|"
         desc += "\\hat{\\boldsymbol{n}}^{\\text{t}}" + f"_{{{entity_n}}}"
         desc += "\\mathbf{V}"
         desc += "\\hat{\\boldsymbol{n}}" + f"_{{{entity_n}}}"
-- 
2.43.0


From 25acfcb97a5e7637d4fc81f6474a6feafd523925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 69/76] fix: TeX of Bernstein DOFs numbers the polynomials from
 1 like its terms

---
 symfem/elements/bernstein.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/bernstein.py b/symfem/elements/bernstein.py
index 071bbe6..b74ed60 100644
--- a/symfem/elements/bernstein.py
+++ b/symfem/elements/bernstein.py
@@ -161,14 +161,14 @@ class BernsteinFunctional(BaseFunctional):
             TeX representation
         """
         if self.reference.tdim == self.ref.tdim:
-            return f"v\\mapsto c_{{{self.index}}}", [
+            return f"v\\mapsto c_{{{self.index + 1}}}", [
                 "\\(v=\\sum_ic_iB_i\\)",
                 f"\\(B_1\\) to \\(B_n\\) "
                 f"are the degree {self.degree} Bernstein polynomials on the cell",
             ]
         else:
             e = self.entity_tex()
-            return f"v\\mapsto c^{{{e}}}_{{{self.index}}}", [
+            return f"v\\mapsto c^{{{e}}}_{{{self.index + 1}}}", [
                 f"\\(v=\\sum_ic^{{{e}}}_iB^{{{e}}}_i\\)",
                 f"\\(B^{{{e}}}_1\\) to \\(B^{{{e}}}_n\\) "
                 f"are the degree {self.degree} Bernstein polynomials on \\({e}\\)",
-- 
2.43.0


From d96a208a826c008eee39578e7e5153781679876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 70/76] fix: a plot that fails does not make the next one of
 the function empty

---
 symfem/functions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 272466d..a6b173c 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -853,7 +853,7 @@ class ScalarFunction(AnyFunction):
 
         key = (reference, n, value_scale)
         if key not in self._plot_beziers:
-            self._plot_beziers[key] = []
+            beziers = []
             pts, pairs = reference.make_lattice_with_lines_float(n)
 
             value_scale *= sympy.Rational(5, 8)
@@ -877,7 +877,7 @@ class ScalarFunction(AnyFunction):
                 dj = deriv.subs(x, pj).dot(d_pj - pts[j]).as_sympy()
                 assert isinstance(di, sympy.core.expr.Expr)
                 assert isinstance(dj, sympy.core.expr.Expr)
-                self._plot_beziers[key].append(
+                beziers.append(
                     (
                         tuple(pi) + (evals[i],),
                         tuple(d_pi) + (evals[i] + di * value_scale,),
@@ -885,6 +885,7 @@ class ScalarFunction(AnyFunction):
                         tuple(pj) + (evals[j],),
                     )
                 )
+            self._plot_beziers[key] = beziers
 
         for s, m1, m2, e in self._plot_beziers[key]:
             img.add_bezier(s, m1, m2, e, colors.ORANGE)
@@ -1297,7 +1298,7 @@ class VectorFunction(AnyFunction):
 
         key = (reference, n, value_scale)
         if key not in self._plot_arrows:
-            self._plot_arrows[key] = []
+            arrows = []
             pts = reference.make_lattice_float(n)
             value_scale /= 4
 
@@ -1307,7 +1308,8 @@ class VectorFunction(AnyFunction):
                 value = VectorFunction(tuple(sympy.Float(float(v)) for v in value_s))
                 value *= value_scale
                 size = float(value.norm() * 40)
-                self._plot_arrows[key].append((p, VectorFunction(p) + value, size))
+                arrows.append((p, VectorFunction(p) + value, size))
+            self._plot_arrows[key] = arrows
         for p, q, size in self._plot_arrows[key]:
             img.add_arrow(p, q, colors.ORANGE, size)
 
-- 
2.43.0


From da9df944edd51828f56223b2dc7276f8330ad192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:57 +0000
Subject: [PATCH 71/76] fix: the edge points of the order 3 KMV element on a
 triangle are those of its quadrature rule

---
 symfem/elements/kmv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/kmv.py b/symfem/elements/kmv.py
index 9440421..0c581c0 100644
--- a/symfem/elements/kmv.py
+++ b/symfem/elements/kmv.py
@@ -126,7 +126,7 @@ class KongMulderVeldhuizen(CiarletElement):
                             entity=(0, v_n),
                         )
                     )
-                alpha = sympy.Rational(1, 2) - sympy.sqrt(411 - 84 * (7 - sympy.sqrt(7))) / 42
+                alpha = sympy.Rational(1, 2) - sympy.sqrt(441 - 84 * (7 - sympy.sqrt(7))) / 42
                 for e_n, e in enumerate(reference.edges):
                     dofs.append(
                         WeightedPointEvaluation(
-- 
2.43.0


From 98f3d03744e33b4a8762e2493141f483bf67fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:57 +0000
Subject: [PATCH 72/76] fix: the edge weights of the order 3 KMV element on a
 triangle are positive and sum to its area

---
 symfem/elements/kmv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/kmv.py b/symfem/elements/kmv.py
index 0c581c0..33de740 100644
--- a/symfem/elements/kmv.py
+++ b/symfem/elements/kmv.py
@@ -135,7 +135,7 @@ class KongMulderVeldhuizen(CiarletElement):
                                 i + (j - i) * alpha
                                 for i, j in zip(reference.vertices[e[0]], reference.vertices[e[1]])
                             ),
-                            sympy.Rational(7, 720) - sympy.sqrt(7) / 180,
+                            sympy.Rational(7, 720) + sympy.sqrt(7) / 180,
                             entity=(1, e_n),
                         )
                     )
@@ -146,7 +146,7 @@ class KongMulderVeldhuizen(CiarletElement):
                                 j + (i - j) * alpha
                                 for i, j in zip(reference.vertices[e[0]], reference.vertices[e[1]])
                             ),
-                            sympy.Rational(7, 720) - sympy.sqrt(7) / 180,
+                            sympy.Rational(7, 720) + sympy.sqrt(7) / 180,
                             entity=(1, e_n),
                         )
                     )
-- 
2.43.0


From 3c0ec4fedc36b032bb71aebf1e2345149b8968d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 73/76] fix: the order 2 KMV space on a tetrahedron has one
 bubble space per face

---
 symfem/elements/kmv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symfem/elements/kmv.py b/symfem/elements/kmv.py
index 33de740..30aaf8b 100644
--- a/symfem/elements/kmv.py
+++ b/symfem/elements/kmv.py
@@ -51,12 +51,12 @@ def kmv_tet_polyset(m: int, mf: int, mi: int) -> typing.List[FunctionInput]:
     poly: typing.List[FunctionInput] = []
     poly += polynomial_set_1d(3, m)
 
-    # TODO: check this
-    for axes in [(x[0], x[1]), (x[0], x[2]), (x[1], x[2]), (x[1] - x[0], x[2] - x[0])]:
-        b = axes[0] * axes[1] * (1 - axes[0] - axes[1])
+    c = 1 - x[0] - x[1] - x[2]
+    for axes in [(x[0], x[1], x[2]), (x[1], x[2], c), (x[0], x[2], c), (x[0], x[1], c)]:
+        b = axes[0] * axes[1] * axes[2]
         for i in range(mf - 2):
             for j in range(mf - 2 - i):
-                poly.append(x[0] ** i * x[1] ** j * x[2] ** (mf - 3 - i - j) * b)
+                poly.append(axes[0] ** i * axes[1] ** j * axes[2] ** (mf - 3 - i - j) * b)
 
     b = x[0] * x[1] * x[2] * (1 - x[0] - x[1] - x[2])
     for i in range(mi - 3):
-- 
2.43.0


From b214048d97c5d3017f894181e972edf9db1b7b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 74/76] fix: polynomial superdegree of the TNT H(curl) element
 on a hexahedron

---
 symfem/elements/tnt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfem/elements/tnt.py b/symfem/elements/tnt.py
index 59e85f7..5d241e1 100644
--- a/symfem/elements/tnt.py
+++ b/symfem/elements/tnt.py
@@ -320,7 +320,9 @@ class TNTcurl(CiarletElement):
 
     @property
     def polynomial_superdegree(self) -> typing.Optional[int]:
-        return self.order * self.reference.tdim + 1
+        if self.reference.tdim == 2:
+            return self.order * 2 + 1
+        return max(self.order * 3, self.order * 2 + 2)
 
     names = ["tiniest tensor Hcurl", "TNTcurl"]
     references = ["quadrilateral", "hexahedron"]
-- 
2.43.0


From 6b083bfa7cec82b88ed91ac5b6c05d497f7850d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 75/76] fix: a moment against a function that varies has the
 direction at its point, or none, and can be plotted

---
 symfem/functionals.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index e974761..9b0f15b 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -1341,6 +1341,8 @@ class IntegralMoment(BaseFunctional):
             if self.f.is_vector:
                 p = (self.f.subs(t, self.dof_point())).as_sympy()
                 assert isinstance(p, tuple)
+                if all(i == 0 for i in p):
+                    return None
                 return p
             return None
         vp = VectorFunction(p)
@@ -1446,8 +1448,10 @@ class DerivativeIntegralMoment(IntegralMoment):
         Returns:
             The direction
         """
-        dw = self.dot_with.as_sympy()
+        dw = self.dot_with.subs(x, self.dof_point()).as_sympy()
         assert isinstance(dw, tuple)
+        if all(i == 0 for i in dw):
+            return None
         return dw
 
     def _eval_symbolic(self, function: AnyFunction) -> AnyFunction:
-- 
2.43.0


From d14a38cd928262d2ee742cf45de20bcd2d5dd176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:21 +0000
Subject: [PATCH 76/76] fix: TeX of a functional with a weight that is a sum
 puts the weight in brackets

---
 symfem/functionals.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 9b0f15b..dcd7cef 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -64,6 +64,21 @@ def _to_tex(f: FunctionInput, tfrac: bool = False) -> str:
         return out
 
 
+def _factor_to_tex(f: FunctionInput) -> str:
+    r"""Convert an expresson that multiplies what follows it to TeX.
+
+    Args:
+        f: the function
+
+    Returns:
+        The function as TeX, in brackets if it is a sum
+    """
+    out = _to_tex(f)
+    if isinstance(parse_function_input(f).as_sympy(), sympy.Add):
+        return f"\\left({out}\\right)"
+    return out
+
+
 def _nth(n: int) -> str:
     """Add th, st or nd to a number.
 
@@ -370,7 +385,7 @@ class WeightedPointEvaluation(BaseFunctional):
         """
         assert isinstance(self.point, VectorFunction)
         return (
-            f"v\\mapsto {_to_tex(self.weight)} "
+            f"v\\mapsto {_factor_to_tex(self.weight)} "
             f"v({','.join([_to_tex(i, True) for i in self.point])})"
         ), []
 
@@ -1211,7 +1226,7 @@ class IntegralOfDirectionalMultiderivative(BaseFunctional):
         desc = "v\\mapsto"
         desc += "\\displaystyle "
         if self.scale != 1:
-            desc += _to_tex(self.scale)
+            desc += _factor_to_tex(self.scale)
         desc += f"\\int_{{{entity}}}"
         for order, dir in zip(self.orders, self.directions):
             if order > 0:
-- 
2.43.0

