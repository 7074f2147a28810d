"""Reading symfem objects into the oracle's own representation, and the functional model.

A function is read as a list of pieces [(cell or None, comps)], comps being a nested list (shape
(), (n,) or (n, m)) of Comp.  A Comp is an oracle polynomial, or a sympy expression evaluated
numerically when it is not polynomial (pyramids, direct serendipity).
"""

import sympy

from harness import oracle as O
from harness.oracle import F0, F1, Poly, num


class OutOfModel(Exception):
    """The oracle has no opinion on this object."""


# -- reading functions --------------------------------------------------------------------------
class Comp:
    __slots__ = ("poly", "expr", "names")

    def __init__(self, expr, names=("x", "y", "z")):
        self.names = names
        if isinstance(expr, Poly):
            self.poly, self.expr = expr, None
            return
        expr = sympy.sympify(expr)
        self.expr = expr
        try:
            self.poly = O.to_poly(expr, names)
        except O.NotPolynomial:
            self.poly = None

    def at(self, pt):
        if self.poly is not None:
            n = self.poly.n
            return self.poly(list(pt) + [F0] * (n - len(pt)))
        env = {a: num(b) for a, b in zip(self.names, list(pt) + [F0] * 3)}
        try:
            return O.ev(self.expr, env)
        except ZeroDivisionError:
            # removable singularity (pyramid apex): approach along the axis to the base
            raise OutOfModel("singular point")

    def diff(self, i):
        if self.poly is not None:
            return Comp(self.poly.diff(i), self.names)
        return Comp(sympy.diff(self.expr, sympy.Symbol(self.names[i])), self.names)

    def P(self):
        if self.poly is None:
            raise OutOfModel("not polynomial")
        return self.poly


def _shape_map(e, f):
    if isinstance(e, sympy.MatrixBase):
        return [[f(e[i, j]) for j in range(e.cols)] for i in range(e.rows)]
    if isinstance(e, (tuple, list)):
        return [_shape_map(i, f) if isinstance(i, (tuple, list)) else f(i) for i in e]
    return f(e)


def read_plain(f, names=("x", "y", "z")):
    """A non-piecewise symfem function or sympy object -> comps."""
    s = f.as_sympy() if hasattr(f, "as_sympy") else f
    if isinstance(s, dict):
        raise OutOfModel("piecewise")
    return _shape_map(s, lambda e: Comp(e, names))


def read(f, names=("x", "y", "z")):
    """Any symfem function -> [(piece vertices or None, comps)]."""
    if hasattr(f, "get_function"):
        f = f.get_function()
    pieces = getattr(f, "pieces", None)
    if pieces is not None and not callable(pieces):
        out = []
        for vs, g in pieces.items():
            vs = [tuple(num(c) for c in v) for v in vs]
            out.append((vs, read_plain(g, names)))
        return out
    return [(None, read_plain(f, names))]


def shape(comps):
    if isinstance(comps, Comp):
        return ()
    if isinstance(comps[0], Comp):
        return (len(comps),)
    return (len(comps), len(comps[0]))


def flat(comps):
    if isinstance(comps, Comp):
        return [comps]
    if isinstance(comps[0], Comp):
        return list(comps)
    return [c for r in comps for c in r]


def piece_type(vs, tdim):
    return O.entity_type(tdim, len(vs))


def in_piece(vs, pt, tdim, tol=None):
    """Closed containment of a point in an affine piece."""
    cell = piece_type(vs, tdim)
    o, axes = O.frame(cell, vs)
    A, b = O.inverse_affine(o, axes)
    q = O.vadd(O.matvec(A, [num(i) for i in pt]), b)
    if all(isinstance(i, O.Fraction) for i in q):
        return O.bary_inside(cell, q)
    eps = O.mpf(10) ** -20
    if cell in ("triangle", "tetrahedron", "interval"):
        q = [O.tomp(i) for i in q]
        return all(i > -eps for i in q) and sum(q) < 1 + eps
    return all(-eps < O.tomp(i) < 1 + eps for i in q)


def value(comps, pt):
    return _m(comps, lambda c: c.at(pt))


def _m(comps, f):
    if isinstance(comps, Comp):
        return f(comps)
    return [_m(c, f) for c in comps]


def values_at(pieces, pt, tdim):
    """The candidate values of a (piecewise) function at a point: one per piece containing it."""
    if pieces[0][0] is None:
        return [value(pieces[0][1], pt)]
    return [value(c, pt) for vs, c in pieces if in_piece(vs, pt, tdim)]


def same_value(a, b, tol=None):
    if isinstance(a, list):
        return len(a) == len(b) and all(same_value(i, j, tol) for i, j in zip(a, b))
    return O.close(a, b, tol)


def flatv(v):
    if isinstance(v, list):
        return [j for i in v for j in flatv(i)]
    return [v]


# -- recording functional construction --------------------------------------------------------------
def install_recorder():
    """Wrap the constructors of the functionals: remember the (public) arguments they were given."""
    import functools
    import inspect

    import symfem.elements.bernstein  # noqa: F401
    import symfem.functionals as fl

    todo, seen = [fl.BaseFunctional], set()
    while todo:
        cls = todo.pop()
        todo += cls.__subclasses__()
        if cls in seen or cls is fl.BaseFunctional or "__init__" not in cls.__dict__:
            continue
        seen.add(cls)
        orig = cls.__dict__["__init__"]
        if hasattr(orig, "_verif"):
            continue
        sig = inspect.signature(orig)

        def make(orig, sig, cls):
            @functools.wraps(orig)
            def init(self, *a, **k):
                if "_verif_made" not in self.__dict__:
                    b = sig.bind(self, *a, **k)
                    b.apply_defaults()
                    args = list(b.arguments.values())[1:]
                    names = list(b.arguments.keys())[1:]
                    self.__dict__["_verif_made"] = (cls.__name__, args, names)
                orig(self, *a, **k)

            init._verif = True
            return init

        cls.__init__ = make(orig, sig, cls)


# -- cells from symfem references -------------------------------------------------------------------
class Cell:
    def __init__(self, name, verts):
        self.name = name
        self.verts = [tuple(num(c) for c in v) for v in verts]
        self.tdim = O.TDIM[name]
        self.gdim = len(self.verts[0])
        self.o, self.axes = O.frame(name, self.verts)
        self._meas = None

    @property
    def meas(self):
        """Local measure factor of the frame."""
        if self._meas is None:
            self._meas = O.gram_measure(self.axes)
        return self._meas

    @staticmethod
    def of(ref):
        return Cell(ref.name, ref.vertices)

    def sub(self, dim, n):
        if dim == self.tdim:
            return self
        vs = O.sub_entities(self.name, dim)[n]
        return Cell(O.entity_type(dim, len(vs)), [self.verts[i] for i in vs])

    def is_default(self):
        return self.verts == [tuple(num(c) for c in v) for v in O.VERTS[self.name]]

    def tangent(self):
        n = O.norm(self.axes[0])
        return [O.div(a, n) for a in self.axes[0]]

    def normal(self):
        if self.tdim == 1 and self.gdim == 2:
            v = [-self.axes[0][1], self.axes[0][0]]
        elif self.tdim == 2 and self.gdim == 3:
            v = O.cross(*self.axes)
        else:
            raise OutOfModel("no normal")
        n = O.norm(v)
        return [O.div(a, n) for a in v]

    def polys(self):
        return O.affine_polys(self.o, self.axes, self.tdim)


# -- local functions (moment functions): Polys in the entity's own coordinates -----------------------
TNAMES = ("t0", "t1", "t2")


def read_local(f, m):
    """A function given in local coordinates x (or t) -> nested list of Poly in m variables."""
    if hasattr(f, "get_function"):
        f = f.get_function()
    if getattr(f, "pieces", None) is not None and not callable(f.pieces):
        raise OutOfModel("piecewise moment function")
    s = f.as_sympy() if hasattr(f, "as_sympy") else f
    s = _shape_map(s, sympy.sympify)

    def conv(e):
        fs = {a.name for a in e.free_symbols}
        names = TNAMES if fs & set(TNAMES) else ("x", "y", "z")
        if m == 0:
            return Poly.const(0, O.ev(e, {}))
        try:
            return O.to_poly(e, names[:m])
        except O.NotPolynomial:
            raise OutOfModel("moment function not polynomial")

    def rec(s):
        return [rec(i) for i in s] if isinstance(s, list) else conv(s)

    return rec(s)


def integrate_over(pieces, domain, tdim, integrand):
    """Integral over a domain cell of integrand(comps, param) (param: polys of the local coords).

    `integrand(comps, compose)` must return a Poly in the local coordinates of the (sub)domain;
    for piecewise functions the domain is split along the pieces.
    """
    if pieces[0][0] is None:
        m = domain.tdim
        p = integrand(pieces[0][1], domain.polys(), [Poly.var(m, i) for i in range(m)])
        return O.mul(O.integrate_ref(p, domain.name), domain.meas)
    total = F0
    subs = []
    seen = set()
    for vs, comps in pieces:
        pt = piece_type(vs, tdim)
        for ent in O.sub_entities(pt, domain.tdim):
            ev = [vs[i] for i in ent]
            if all(on_cell(domain, v) for v in ev):
                key = tuple(sorted(tuple(O.tomp(c) for c in v) for v in ev))
                if key in seen:
                    continue
                seen.add(key)
                subs.append((Cell(O.entity_type(domain.tdim, len(ev)), ev), comps))
    # local coordinates of the domain as functions of the subdomain's coordinates
    covered = F0
    for c, comps in subs:
        phys = c.polys()
        loc = local_coords(domain, phys)
        p = integrand(comps, phys, loc)
        total = O.add(total, O.mul(O.integrate_ref(p, c.name), c.meas))
        covered = O.add(covered, O.mul(O.VOLUME[c.name], c.meas))
    want = O.mul(O.VOLUME[domain.name], domain.meas)
    if not O.close(covered, want, 1e-20):
        raise OutOfModel("pieces do not resolve the integration domain")
    return total


def local_coords(domain, phys):
    """phys: point as Polys; its coordinates in the frame of `domain` (least squares, exact)."""
    axes = domain.axes
    G = [[O.dotp(a, b) for b in axes] for a in axes]
    Gi = O.matinv(G) if axes else []
    diff = [p - o for p, o in zip(phys, domain.o)]
    rhs = []
    for a in axes:
        s = Poly(phys[0].n)
        for d, c in zip(diff, a):
            s = s + d * c
        rhs.append(s)
    out = []
    for row in Gi:
        s = Poly(phys[0].n)
        for r, c in zip(rhs, row):
            s = s + r * c
        out.append(s)
    return out


def on_cell(cell, v, tol=1e-20):
    """Is v in the closed (possibly embedded) affine cell?"""
    axes = cell.axes
    d = O.vsub(v, cell.o)
    if not axes:
        return all(O.is_zero(c, tol) for c in d)
    G = [[O.dotp(a, b) for b in axes] for a in axes]
    loc = O.matvec(O.matinv(G), [O.dotp(a, d) for a in axes])
    back = O.affine_point(cell.o, axes, loc)
    if not all(O.close(a, b, tol) for a, b in zip(back, v)):
        return False
    if all(isinstance(i, O.Fraction) for i in loc):
        return O.bary_inside(cell.name, loc)
    lo = [O.tomp(i) for i in loc]
    if cell.name in ("interval", "triangle", "tetrahedron"):
        return all(i > -tol for i in lo) and sum(lo) < 1 + tol
    if cell.name in ("quadrilateral", "hexahedron"):
        return all(-tol < i < 1 + tol for i in lo)
    raise OutOfModel(cell.name)


# -- the model ---------------------------------------------------------------------------------------
def _compose(comps, phys):
    def g(c):
        p = c.P()
        k = phys[0].n if phys else 0
        full = list(phys) + [Poly(k)] * (p.n - len(phys))
        return p.compose(full)

    return _m(comps, g)


def _lin(polys, nums):
    r = Poly(polys[0].n)
    for p, c in zip(polys, nums):
        r = r + p * c
    return r


def _dot(a, b):
    """Dot product / Frobenius product / scalar product of nested Polys."""
    if isinstance(a, Poly):
        return a * b
    r = None
    for i, j in zip(a, b):
        t = _dot(i, j)
        r = t if r is None else r + t
    return r


def grad(comps, n):
    if isinstance(comps, Comp):
        return [comps.diff(i) for i in range(n)]
    raise OutOfModel("gradient of non-scalar")


def divergence(comps):
    r = None
    for i, c in enumerate(comps):
        d = c.diff(i)
        if d.poly is None or (r is not None and r.poly is None):
            r = Comp((0 if r is None else r.expr) + d.expr)
        else:
            r = d if r is None else Comp(r.poly + d.poly)
    return r


def push_contra(f, axes, det):
    """Contravariant push of a nested list of Polys given in the frame with these axes."""
    gd = len(axes[0])
    inv = O.div(F1, det)
    return [_lin(f, [O.mul(a[i], inv) for a in axes]) for i in range(gd)]


def push_dcontra(f, axes, det):
    gd = len(axes[0])
    inv = O.div(F1, O.mul(det, det))
    m = len(axes)
    out = []
    for i in range(gd):
        row = []
        for j in range(gd):
            r = Poly(f[0][0].n)
            for a in range(m):
                for b in range(m):
                    r = r + f[a][b] * O.mul(O.mul(axes[a][i], axes[b][j]), inv)
            row.append(r)
        out.append(row)
    return out


def frame_det(axes):
    if len(axes) == len(axes[0]):
        return O.det(axes)
    return O.gram_measure(axes)


def numbers(v):
    """A point/vector argument -> list of numbers."""
    if hasattr(v, "as_sympy"):
        v = v.as_sympy()
    if isinstance(v, sympy.MatrixBase):
        v = list(v)
    return [num(i) for i in v]


class Functional:
    """Model of a symfem functional: `ev(pieces)` -> list of admissible values."""

    def __init__(self, cls, args, names):
        self.cls = cls
        self.a = dict(zip(names, args))
        self.args = args
        self.ref = Cell.of(args[0])
        self.tdim = self.ref.tdim
        fn = getattr(self, "_" + cls, None)
        if fn is None:
            raise OutOfModel(f"no model for {cls}")
        self.fn = fn
        ent = self.a.get("entity")
        self.entity = tuple(ent)
        self.domain = self.ref.sub(*self.entity)

    @staticmethod
    def of(dof):
        made = getattr(dof, "_verif_made", None)
        if made is None or made[0] != type(dof).__name__:
            raise OutOfModel(f"unrecorded functional {type(dof).__name__}")
        return Functional(*made)

    def ev(self, pieces):
        return self.fn(pieces)

    def arg(self, i):
        return self.args[i]

    # point functionals
    def _pt(self, pieces, g):
        pt = numbers(self.arg(1))
        if pieces[0][0] is None:
            return [g(pieces[0][1], pt)]
        return [g(c, pt) for vs, c in pieces if in_piece(vs, pt, self.tdim)]

    def _PointEvaluation(self, p):
        return self._pt(p, lambda c, pt: value(c, pt))

    def _WeightedPointEvaluation(self, p):
        w = num(self.arg(2))
        return self._pt(p, lambda c, pt: O.mul(w, value(c, pt)))

    def _DerivativePointEvaluation(self, p):
        der = self.arg(2)

        def g(c, pt):
            for i, k in enumerate(der):
                for _ in range(k):
                    c = c.diff(i)
            return c.at(pt)

        return self._pt(p, g)

    def _dirder(self, p, d):
        return self._pt(p, lambda c, pt: O.dotp([g.at(pt) for g in grad(c, len(d))], d))

    def _PointDirectionalDerivativeEvaluation(self, p):
        return self._dirder(p, numbers(self.arg(2)))

    def _PointNormalDerivativeEvaluation(self, p):
        return self._dirder(p, Cell.of(self.arg(2)).normal())

    def _PointComponentSecondDerivativeEvaluation(self, p):
        i, j = self.arg(2)
        return self._pt(p, lambda c, pt: c.diff(i).diff(j).at(pt))

    def _PointInnerProduct(self, p):
        lv, rv = numbers(self.arg(2)), numbers(self.arg(3))

        def g(c, pt):
            v = value(c, pt)
            return O.dotp(lv, [O.dotp(r, rv) for r in v])

        return self._pt(p, g)

    def _DotPointEvaluation(self, p):
        w = self.arg(2)
        wc = read(w)[0][1]

        def g(c, pt):
            return O.dotp(flatv(value(c, pt)), flatv(value(wc, pt)))

        return self._pt(p, g)

    def _PointDivergenceEvaluation(self, p):
        return self._pt(p, lambda c, pt: divergence(c).at(pt))

    # integral functionals
    def _int(self, p, g):
        """g(polys of the function on the domain, local coordinates) -> Poly."""
        return [integrate_over(p, self.domain, self.tdim, lambda c, phys, loc: g(c, phys, loc))]

    def _local(self, f):
        return read_local(f, self.domain.tdim)

    def _at_local(self, f, loc):
        if isinstance(f, list):
            return [self._at_local(i, loc) for i in f]
        if not loc:
            return f
        return f.compose(loc)

    def _IntegralAgainst(self, p):
        f = self._local(self.arg(1))
        inv = O.div(F1, self.ref.meas)
        d = self.domain

        def scale(f):
            return [scale(i) for i in f] if isinstance(f, list) else f * inv

        f = scale(f)
        if isinstance(f, list) and isinstance(f[0], list):
            f = push_dcontra(f, d.axes, frame_det(d.axes))
        elif isinstance(f, list):
            f = push_contra(f, d.axes, frame_det(d.axes))
        return self._int(p, lambda c, phys, loc: _dot(_compose(c, phys), self._at_local(f, loc)))

    def _IntegralOfDivergenceAgainst(self, p):
        f = self._local(self.arg(1))
        return self._int(p, lambda c, phys, loc: _compose(divergence(c), phys) * self._at_local(f, loc))

    def _IntegralOfDirectionalMultiderivative(self, p):
        dirs = [numbers(d) for d in self.arg(1)]
        orders = self.arg(2)
        scale = num(self.a["scale"])

        def g(c, phys, loc):
            for d, o in zip(dirs, orders):
                for _ in range(o):
                    gr = grad(c, len(d))
                    c = Comp(_lin([k.P() for k in gr], d))
            return _compose(c, phys) * scale

        return self._int(p, g)

    def _moment_f(self, f, map_function=True):
        """The moment function on the domain, as nested Polys in the domain's coordinates."""
        d = self.domain
        f = self._local(f)
        dd = Cell(self.ref.name, O.VERTS[self.ref.name]).sub(*self.entity)
        if not dd.is_default():
            if isinstance(f, list) and not isinstance(f[0], list) and len(f) != self.ref.gdim:
                f = push_contra(f, dd.axes, frame_det(dd.axes))
            elif isinstance(f, list) and isinstance(f[0], list):
                f = push_dcontra(f, dd.axes, frame_det(dd.axes))
        if map_function and not self.ref.is_default():
            # moments on a mapped cell are the moments of the pulled-back function
            mapping = self.a.get("mapping")
            J = O.transpose(self.ref.axes)  # columns are the axes
            det = O.det(J)
            Ji = O.matinv(J)
            n = len(J)
            if mapping in ("identity",):
                pass
            elif mapping == "l2":
                f = f * abs(det)
            elif mapping == "covariant":
                # v = J^-T V, V.f = v.(J f)
                f = [_lin(f, J[i]) for i in range(n)]
            elif mapping == "contravariant":
                # v = J V / det, V.f = v.(J^-T f det)
                f = [_lin(f, [O.mul(Ji[k][i], det) for k in range(n)]) for i in range(n)]
            elif mapping in ("double_covariant", "double_contravariant"):
                if mapping == "double_covariant":
                    B, s = J, F1
                else:
                    B, s = O.transpose(Ji), O.mul(det, det)
                g = []
                for i in range(n):
                    row = []
                    for j in range(n):
                        r = Poly(f[0][0].n)
                        for a in range(n):
                            for b in range(n):
                                r = r + f[a][b] * O.mul(O.mul(B[i][a], B[j][b]), s)
                        row.append(r)
                    g.append(row)
                f = g
            else:
                raise OutOfModel(f"mapping {mapping}")
            ratio = O.div(dd.meas, d.meas)

            def scale(f):
                return [scale(i) for i in f] if isinstance(f, list) else f * ratio

            f = scale(f)
        return f

    def _IntegralMoment(self, p):
        f = self._moment_f(self.arg(1), self.a.get("map_function", True))
        return self._int(p, lambda c, phys, loc: _dot(_compose(c, phys), self._at_local(f, loc)))

    def _deriv_moment(self, p, direction):
        f = self._moment_f(self.arg(1))

        def g(c, phys, loc):
            gr = _compose(grad(c, len(direction)), phys)
            return _lin(gr, direction) * self._at_local(f, loc)

        return self._int(p, g)

    def _DerivativeIntegralMoment(self, p):
        try:
            return self._deriv_moment(p, numbers(self.arg(2)))
        except O.NotAValue:  # a direction that depends on the (physical) point
            pass
        f = self._moment_f(self.arg(1))
        dw = self.arg(2)
        dw = dw.as_sympy() if hasattr(dw, "as_sympy") else dw
        dw = read_plain(tuple(i.as_sympy() if hasattr(i, "as_sympy") else i for i in dw))

        def g(c, phys, loc):
            gr = _compose(grad(c, len(dw)), phys)
            return _dot(gr, _compose(dw, phys)) * self._at_local(f, loc)

        return self._int(p, g)

    def _NormalDerivativeIntegralMoment(self, p):
        return self._deriv_moment(p, self.domain.normal())

    def _DivergenceIntegralMoment(self, p):
        f = self._moment_f(self.arg(1))
        return self._int(p, lambda c, phys, loc: _compose(divergence(c), phys) * self._at_local(f, loc))

    def _vec_moment(self, p, v):
        f = self._local(self.arg(1))
        return self._int(p, lambda c, phys, loc: _lin(_compose(c, phys), v) * self._at_local(f, loc))

    def _TangentIntegralMoment(self, p):
        return self._vec_moment(p, self.domain.tangent())

    def _NormalIntegralMoment(self, p):
        return self._vec_moment(p, self.domain.normal())

    def _inner(self, p, lv, rv):
        f = self._moment_f_scalar()
        s = self.domain.meas

        def g(c, phys, loc):
            M = _compose(c, phys)
            v = _lin([_lin(r, rv) for r in M], lv)
            return v * self._at_local(f, loc) * s

        return self._int(p, g)

    def _moment_f_scalar(self):
        return self._moment_f(self.arg(1))

    def _InnerProductIntegralMoment(self, p):
        return self._inner(p, numbers(self.arg(2)), numbers(self.arg(3)))

    def _NormalInnerProductIntegralMoment(self, p):
        n = self.domain.normal()
        return self._inner(p, n, n)

    def _BernsteinFunctional(self, p):
        """Coefficient `index` of the restriction in the Bernstein basis of the entity."""
        dom = Cell.of(self.a["integral_domain"])
        degree, index = int(self.a["degree"]), int(self.a["index"])
        if p[0][0] is not None:
            raise OutOfModel("piecewise")
        q = _compose(p[0][1], dom.polys())
        B = bernstein_basis(degree, dom.tdim)
        monos = O.monos_total(dom.tdim, degree)
        if any(k not in set(monos) and not O.is_zero(v) for k, v in q.c.items()):
            raise OutOfModel("degree too high")
        A = [[b.c.get(m, F0) for b in B] for m in monos]
        return [O.solve(A, [q.c.get(m, F0) for m in monos])[index]]


def bernstein_basis(n, d):
    """Bernstein polynomials, first local coordinate running fastest."""
    from itertools import product
    from math import factorial

    xs = [Poly.var(d, i) for i in range(d)]
    lam0 = Poly.const(d, 1)
    for v in xs:
        lam0 = lam0 - v
    out = []
    for e in sorted((e for e in product(range(n + 1), repeat=d) if sum(e) <= n), key=lambda e: e[::-1]):
        c = factorial(n)
        for k in (*e, n - sum(e)):
            c //= factorial(k)
        t = (lam0 ** (n - sum(e))) * c
        for v, k in zip(xs, e):
            t = t * v**k
        out.append(t)
    return out
