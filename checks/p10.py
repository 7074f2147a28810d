"""P10: derivatives and differential operators are exact, and satisfy the integral theorems."""

import random
from fractions import Fraction

from checks.p09 import Outside, observe, snapshot
from harness import fem, gen
from harness import oracle as O
from harness.core import Case

PROPERTY = "P10"
TECHNIQUE = (
    "runtime monitor: results of the differential operators compared with exact Taylor (jet) arithmetic; integral theorems on random cells"
)
RULE = (
    "One case = a random function (scalar, vector, matrix; raw operands combined by +, -, *, /, powers, norms, products and dot "
    "products of plain, lazy and piecewise functions) in 1 to 3 variables and every operator that applies to it, alone and chained; "
    "the result at random points must equal the one read off an exact second-order Taylor expansion. Theorem cases integrate with "
    "symfem itself: divergence, gradient, Stokes, Green and integration by parts on random affine cells. "
    "Distinct = operator x kind x form x dimension, and theorem x cell."
)
ASSUMPTIONS = [
    "derivatives of piecewise functions are judged inside the pieces",
    "directional_derivative and jacobian are offered for scalar functions only (symfem raises NotImplementedError for others)",
    "jacobian(dim) is the matrix of second derivatives, as its component function documents",
]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 200}
FLOOR = 4000

NAMES = ("x", "y", "z")


def cases(tier, seed):
    rng = random.Random(f"p10/{seed}")
    n = 130 if tier == "quick" else 2500
    out = []
    for k in range(n):
        t = [1, 2, 3, 2, 3][k % 5]
        out.append(Case(f"operators/{k}", "operators", [t, rng.randint(0, 10**9)], 3))
    for k in range(10 if tier == "quick" else 150):
        for cell in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"):
            out.append(Case(f"divergence/{cell}/{k}", "divergence", [cell, rng.randint(0, 10**9)], 4))
    for k in range(8 if tier == "quick" else 120):
        for cell in ("triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"):
            out.append(Case(f"stokes/{cell}/{k}", "stokes", [cell, rng.randint(0, 10**9)], 4))
    for k in range(12 if tier == "quick" else 200):
        out.append(Case(f"elements/{k}", "elements", [rng.randint(0, 10**9)], 4))
        out.append(Case(f"special/{k}", "special", [rng.randint(0, 10**9)], 3))
    return out


# -- jets: polynomials in the displacement, cut after degree D -------------------------------------
D = 3


def cut(p):
    return O.Poly(p.n, {k: v for k, v in p.c.items() if sum(k) <= D})


def jet(poly, p):
    p = [O.num(c) for c in p] + [O.F0] * (3 - len(p))
    return cut(poly.compose([O.Poly.var(3, i) + c for i, c in enumerate(p)]))


def jmul(a, b):
    return cut(a * b)


def const(j):
    return j.c.get((0, 0, 0), O.F0)


def series(j, coefs):
    """sum coefs[k] * (j - j(0))^k"""
    d = j - O.Poly.const(3, const(j))
    out, pw = O.Poly.const(3, coefs[0]), O.Poly.const(3, 1)
    for c in coefs[1:]:
        pw = jmul(pw, d)
        out = out + pw * c
    return out


def jinv(j):
    a = const(j)
    if O.is_zero(a):
        raise Outside
    return series(j, [O.div(Fraction((-1) ** k), O.power(a, Fraction(k + 1))) for k in range(D + 1)])


def jsqrt(j):
    a = const(j)
    if O.is_zero(a) or a < 0:
        raise Outside
    c, out = Fraction(1), []
    for k in range(D + 1):
        out.append(O.mul(c, O.power(a, Fraction(1, 2) - k)))
        c = c * (Fraction(1, 2) - k) / (k + 1)
    return series(j, out)


def jd(j, i):
    return j.diff(i)


def tree(f, v):
    if isinstance(v, list):
        return [tree(f, i) for i in v]
    return f(v)


def zipt(f, a, b):
    if isinstance(a, list):
        return [zipt(f, i, j) for i, j in zip(a, b)]
    return f(a, b)


def flat(v):
    return [k for i in v for k in flat(i)] if isinstance(v, list) else [v]


def jdot(a, b):
    r = O.Poly(3)
    for i, j in zip(flat(a), flat(b)):
        r = r + jmul(i, j)
    return r


class F:
    """A function: symfem object and its jet at any point."""

    def __init__(self, sym, at, kind, form, shape):
        self.sym, self.at, self.kind, self.form, self.shape = sym, at, kind, form, shape


def leaf(r, t, kind, form, shape=None, deg=3, cell=None):
    f = gen.rand_fun(r, t, kind, deg, form, cell, shape=shape)

    def at(p):
        if f.pieces[0][0] is None:
            c = f.pieces[0][1]
        else:
            hit = [c for vs, c in f.pieces if fem.in_piece(vs, p, t)]
            if len(hit) != 1:
                raise Outside
            c = hit[0]
        return tree(lambda k: jet(k.P(), p), c)

    shp = {"s": (), "v": shape or (t,), "m": shape or (t, t)}[kind]
    return F(f.sym, at, kind, f.form, shp)


def composite(r, t, kind, form):
    """A function built by symfem's own arithmetic."""
    a = leaf(r, t, kind, form)
    k = r.randrange(8)
    other = r.choice(["plain", "lazy"]) if form == "piecewise" else r.choice(["plain", "lazy", form])
    if k == 0:
        b = leaf(r, t, kind, other, a.shape if kind != "s" and other == "plain" else None)
        return F(a.sym - b.sym, lambda p: zipt(lambda u, v: u - v, a.at(p), b.at(p)), kind, form + "|sub", a.shape)
    if k in (1, 2):
        s = leaf(r, t, "s", other)
        return F(s.sym * a.sym, lambda p: tree(lambda u: jmul(s.at(p), u), a.at(p)), kind, form + "|mul", a.shape)
    if k in (3, 4):
        s = leaf(r, t, "s", other, deg=1 if other == "plain" else 2)
        den = s.sym * s.sym + 1
        return F(
            a.sym / den,
            lambda p: tree(lambda u: jmul(jinv(jmul(s.at(p), s.at(p)) + 1), u), a.at(p)), kind, form + "|div", a.shape,
        )  # fmt: skip
    if k == 5 and kind == "s":
        return F(a.sym**3, lambda p: jmul(a.at(p), jmul(a.at(p), a.at(p))), kind, form + "|pow", ())
    if k == 6 and kind == "s":
        v, w = leaf(r, t, "v", "plain", (t,)), leaf(r, t, "v", other if t > 1 else "plain")
        return F(v.sym.dot(w.sym), lambda p: jdot(v.at(p), w.at(p)), "s", "dot", ())
    if k == 7 and kind == "s":
        v = leaf(r, t, "v", "plain", (t,), deg=2)
        return F(v.sym.norm(), lambda p: jsqrt(jdot(v.at(p), v.at(p))), "s", "norm", ())
    return a


def points(r, t, n=2):
    cell = {1: "interval", 2: "triangle", 3: "tetrahedron"}[t]
    return [O.rand_point_in(r, cell, 60) for _ in range(n)]


def check(ctx, what, res, want_at, f, t, pts):
    """want_at(jet) -> nested jets; compare values at the points."""
    key = f"{what}|{f.kind}|{f.form}|{t}"
    for p in pts:
        try:
            want = tree(const, want_at(f.at(p)))
        except Outside:
            continue
        try:
            got = observe(res, p, t)
        except Outside:
            ctx.violate(f"{what}:{f.kind}:pieces", f"{f.form}: no piece of the result contains {p}")
            return
        except ZeroDivisionError:
            continue
        if not ctx.expect(
            shape(got) == shape(want) and fem.same_value(got, want), "operator", f"{what}:{f.kind}", f"{f.form} tdim {t} at {[str(c) for c in p]}",
            got=got, want=want, key=key,
        ):  # fmt: skip
            return


def shape(v):
    return (len(v), *shape(v[0])) if isinstance(v, list) and v else (0,) if isinstance(v, list) else ()


# what each operator does to a jet
def jgrad(j, n):
    return [jd(j, i) for i in range(n)]


def jdiv(v):
    r = O.Poly(3)
    for i, c in enumerate(v):
        r = r + jd(c, i)
    return r


def jcurl(v):
    return [jd(v[2], 1) - jd(v[1], 2), jd(v[0], 2) - jd(v[2], 0), jd(v[1], 0) - jd(v[0], 1)]


def jhess(j, n):
    return [[jd(jd(j, a), b) for b in range(n)] for a in range(n)]


def operators(ctx, t, gseed):
    from symfem.symbols import x

    r = random.Random(gseed)
    pts = points(r, t)
    for kind in "svm":
        form = r.choice(["plain", "lazy", "piecewise"])
        f = composite(r, t, kind, form)
        before = snapshot(f.sym)
        g = f.sym

        def do(what, res, want):
            check(ctx, what, res, want, f, t, pts)

        for i in range(3 if t == 3 else t + 1):  # one variable more than the function has: derivative zero
            do(f"diff {NAMES[i]}", g.diff(x[i]), lambda j, i=i: tree(lambda c: jd(c, i), j))
        a, b = r.randrange(t), r.randrange(t)
        do("diff twice", g.diff(x[a]).diff(x[b]), lambda j: tree(lambda c: jd(jd(c, a), b), j))
        if kind == "s":
            for n in sorted({t, r.randint(1, 3)}):
                do(f"grad {n}", g.grad(n), lambda j, n=n: jgrad(j, n))
                do(f"jacobian {n}", g.jacobian(n), lambda j, n=n: jhess(j, n))
            do("jacobian_component", g.jacobian_component((a, b)), lambda j: jd(jd(j, a), b))
            d = [O.rand_frac(r, -3, 3) for _ in range(t)]
            dd = O.spt(d)

            def along(j, d=d):
                return sum((jd(j, i) * c for i, c in enumerate(d)), O.Poly(3))

            do("directional_derivative", g.directional_derivative(dd), along)
            do("directional_derivative list", g.directional_derivative(list(dd)), along)
            do("directional twice", g.directional_derivative(dd).directional_derivative(dd), lambda j: along(along(j)))
            do("laplacian", g.grad(t).div(), lambda j: jdiv(jgrad(j, t)))
            do(
                "trace of jacobian",
                sum((g.jacobian_component((i, i)) for i in range(1, t)), g.jacobian_component((0, 0))),
                lambda j: jdiv(jgrad(j, t)),
            )
            do("diff of grad", g.grad(t).diff(x[a]), lambda j: [jd(c, a) for c in jgrad(j, t)])
            if f.form.split("|")[0] != "piecewise":
                do("grad of component", g.grad(t)[b].grad(t), lambda j: jgrad(jd(j, b), t))
            do("curl grad", g.grad(3).curl(), lambda j: [O.Poly(3)] * 3)
            if t < 3 and f.form in ("plain", "lazy", "piecewise"):
                do("det of jacobian", g.jacobian(t).det(), lambda j: jdet(jhess(j, t)))
        if kind == "v" and f.shape == (t,):
            do("div", g.div(), jdiv)
            do("grad div", g.div().grad(t), lambda j: jgrad(jdiv(j), t))
            do("diff of component", g[a].diff(x[b]), lambda j: jd(j[a], b))
            if t == 3:
                do("curl", g.curl(), jcurl)
                do("curl curl", g.curl().curl(), lambda j: jcurl(jcurl(j)))
                do("div curl", g.curl().div(), lambda j: O.Poly(3))
                do("curl component", g.curl()[b], lambda j: jcurl(j)[b])
            s = leaf(r, t, "s", "plain", deg=2)
            do("div of product", (g * s.sym).div(), product_div(s))
        if kind == "m":
            do("diff of entry", g[a, b].diff(x[a]) if f.form.split("|")[0] != "piecewise" else g.diff(x[a])[a, b], lambda j: jd(j[a][b], a))
            do("diff of transpose", g.transpose().diff(x[b]), lambda j: [[jd(c, b) for c in row] for row in map(list, zip(*j))])
            do("div of row", g[a].div(), lambda j: jdiv(j[a]))
            v = leaf(r, t, "v", "plain", (t,), deg=2)
            do("diff of product", (g @ v.sym).diff(x[a]), matvec_diff(v, a))
        ctx.expect(
            snapshot(f.sym) == before,
            "operand",
            f"operand changed:{kind}",
            f"{f.form} changed by a differential operator",
            key=f"unchanged|{kind}|{f.form}",
        )


def product_div(s):
    def want(j):
        p = want.point
        k = s.at(p)
        return jdiv([jmul(c, k) for c in j])

    return Pointed(want)


def matvec_diff(v, a):
    def want(j):
        w = v.at(want.point)
        return [jd(jdot(row, w), a) for row in j]

    return Pointed(want)


class Pointed:
    """Marks a `want` that needs the point."""

    def __init__(self, fn):
        self.fn = fn


_check = check


def check(ctx, what, res, want_at, f, t, pts):  # noqa: F811
    if isinstance(want_at, Pointed):
        for p in pts:
            want_at.fn.point = p
            _check(ctx, what, res, want_at.fn, f, t, [p])
        return
    _check(ctx, what, res, want_at, f, t, pts)


def jdet(m):
    if len(m) == 1:
        return m[0][0]
    if len(m) == 2:
        return jmul(m[0][0], m[1][1]) - jmul(m[0][1], m[1][0])
    r = O.Poly(3)
    for j in range(3):
        minor = [[row[k] for k in range(3) if k != j] for row in m[1:]]
        r = r + jmul(m[0][j], jdet(minor)) * (-1) ** j
    return r


def special(ctx, gseed):
    """Functions with parameters, other variables, constants, and vectors longer than the dimension."""
    import sympy
    from symfem.functions import ScalarFunction, VectorFunction
    from symfem.symbols import t as T
    from symfem.symbols import x

    r = random.Random(gseed)
    al = sympy.Symbol("alpha")
    q = O.rand_poly(r, 3, 3, 5)
    f = ScalarFunction(O.poly_to_sympy(q)) * al + al**2
    p = O.rand_point_in(r, "tetrahedron", 40)
    env = {"alpha": Fraction(3)}
    j = jet(q, p)
    got = observe(f.grad(3), p, 3, env)
    ctx.expect(fem.same_value(got, [3 * const(jd(j, i)) for i in range(3)]), "special", "grad with a parameter", got=got, key="param|grad")
    got = observe(f.diff(al), p, 3, env)
    ctx.expect(fem.same_value(got, O.add(const(j), Fraction(6))), "special", "diff by a parameter", got=got, key="param|diff")
    g = ScalarFunction(O.poly_to_sympy(q)).subs(x, T)
    got = observe(g.diff(T[1]), p, 3, dict(zip([str(s) for s in T], [O.num(c) for c in p])))
    ctx.expect(fem.same_value(got, const(jd(j, 1))), "special", "diff by a dummy variable", got=got, key="dummy|diff")
    ctx.expect(fem.same_value(observe(g.grad(3), p, 3), [O.F0] * 3), "special", "grad of a function of other variables", key="dummy|grad")
    c = ScalarFunction(r.randint(-3, 3))
    for n in (1, 2, 3):
        ctx.expect(fem.same_value(observe(c.grad(n), p, 3), [O.F0] * n), "special", "grad of a constant", key=f"const|{n}")
        ctx.expect(fem.same_value(observe(c.jacobian(n), p, 3), [[O.F0] * n] * n), "special", "jacobian of a constant", key=f"constj|{n}")
    # a three-component field in two variables has a curl; linearity over numbers and functions
    v = [O.rand_poly(r, 2, 2, 4) for _ in range(3)]
    w = VectorFunction(tuple(O.poly_to_sympy(k) for k in v))
    jv = [jet(gen.pad(k), p) for k in v]
    ctx.expect(
        fem.same_value(observe(w.curl(), p, 3), [const(k) for k in jcurl(jv)]), "special", "curl of a planar field", key="planar curl"
    )
    ctx.expect(fem.same_value(observe(w.div(), p, 3), const(jdiv(jv))), "special", "div of a planar field", key="planar div")
    for name in ("div", "curl"):
        for bad in (ScalarFunction(x[0]), gen.rand_fun(r, 2, "m", 1, "plain").sym):
            try:
                got = getattr(bad, name)()
                ctx.violate(f"{name} of a non-vector", f"gives {got}")
            except (ValueError, NotImplementedError, AssertionError, TypeError):
                ctx.expect(True, "special", "refused", key=f"refused|{name}")
    # smooth functions beyond polynomials
    k, m = r.randint(1, 3), r.randint(1, 3)
    e = sympy.exp(k * x[0]) * sympy.sin(m * x[1])
    s = ScalarFunction(e)
    import mpmath

    px, py = [mpmath.mpf(c.numerator) / c.denominator for c in p[:2]]
    want = [k * mpmath.exp(k * px) * mpmath.sin(m * py), m * mpmath.exp(k * px) * mpmath.cos(m * py)]
    got = observe(s.grad(2), p, 3)
    ctx.expect(fem.same_value(got, want), "special", "grad of exp and sin", got=got, want=want, key="smooth grad")
    lap = observe(s.grad(2).div(), p, 3)
    ctx.expect(
        fem.same_value(lap, (k * k - m * m) * mpmath.exp(k * px) * mpmath.sin(m * py)),
        "special",
        "laplacian of exp and sin",
        key="smooth laplacian",
    )


# -- integral theorems, all computed with symfem --------------------------------------------------
def make_cell(r, cell):
    """A reference (default or random affine, possibly reflected) and its oracle vertices."""
    import symfem

    if r.random() < 0.25:
        return symfem.create_reference(cell), [tuple(map(Fraction, v)) for v in O.VERTS[cell]]
    A, c, verts = O.rand_affine_cell(r, cell)
    return symfem.create_reference(cell, tuple(O.spt(v) for v in verts)), verts


def number(v):
    import sympy

    if hasattr(v, "as_sympy"):
        v = v.as_sympy()
    return O.ev(sympy.sympify(v), {})


def field(r, t, n, cell, verts, form):
    """Vector field with n components in t variables."""
    return gen.rand_fun(r, t, "v", 2, form, cell, verts, shape=(n,))


def outward(ref, verts, tdim, f, gdim):
    """+1 if symfem's normal of facet f points out of the cell (decided by the oracle)."""
    sub = ref.sub_entity(tdim - 1, f)
    nrm = [number(c) for c in sub.normal()]
    mid = [sum((O.num(v[i]) for v in verts), O.F0) / len(verts) for i in range(gdim)]
    v0 = [number(c) for c in sub.vertices[0]]
    return (1 if O.dotp(nrm, O.vsub(v0, mid)) > 0 else -1), sub, nrm


def divergence(ctx, cell, gseed):
    """int_cell div v = sum over facets of int v.n; int_cell (grad u . w + u div w) = int u w.n."""
    from symfem.functions import VectorFunction

    r = random.Random(gseed)
    t = O.TDIM[cell]
    ref, verts = make_cell(r, cell)
    key = f"{cell}"
    if t == 1:
        u = gen.rand_fun(r, 1, "s", 4, r.choice(["plain", "lazy"]))
        lhs = number(u.sym.diff(__import__("symfem").symbols.x[0]).integral(ref))
        ends = sorted(verts)
        want = O.add(fem.value(u.pieces[0][1], ends[1]), -fem.value(u.pieces[0][1], ends[0]))
        ctx.expect(O.close(lhs, want), "theorem", "fundamental theorem:interval", got=lhs, want=want, key="ftc|interval")
        return
    for form in ("plain", "lazy" if (("v", t) in gen.LAZY) else "plain"):
        v = gen.rand_fun(r, t, "v", 2, form)
        u = gen.rand_fun(r, t, "s", 1, "plain")
        lhs = number(v.sym.div().integral(ref))
        rhs = O.F0
        parts_l = number((u.sym.grad(t).dot(v.sym) + u.sym * v.sym.div()).integral(ref))
        parts_r = O.F0
        for f in range(len(O.sub_entities(cell, t - 1))):
            s, sub, _ = outward(ref, verts, t, f, t)
            n = VectorFunction(sub.normal())
            rhs = O.add(rhs, O.mul(Fraction(s), number(v.sym.dot(n).integral(sub))))
            parts_r = O.add(parts_r, O.mul(Fraction(s), number((u.sym * v.sym.dot(n)).integral(sub))))
        ctx.expect(
            O.close(lhs, rhs), "theorem", f"divergence theorem:{cell}", f"{form}", cell_side=lhs, facets=rhs, key=f"div|{key}|{form}"
        )
        ctx.expect(
            O.close(parts_l, parts_r),
            "theorem",
            f"integration by parts:{cell}",
            f"{form}",
            cell_side=parts_l,
            facets=parts_r,
            key=f"parts|{key}|{form}",
        )


def stokes(ctx, cell, gseed):
    """On every face (or planar cell): int curl v . n = circulation; along every edge: int grad u . t = difference."""
    from symfem.functions import VectorFunction

    r = random.Random(gseed)
    t = O.TDIM[cell]
    ref, verts = make_cell(r, cell)
    u = gen.rand_fun(r, t, "s", 3, "plain")
    for e, (a, b) in enumerate(O.sub_entities(cell, 1)):
        sub = ref.sub_entity(1, e)
        got = number(u.sym.grad(t).dot(VectorFunction(sub.tangent())).integral(sub))
        va, vb = [tuple(number(c) for c in w) for w in sub.vertices]
        want = O.add(fem.value(u.pieces[0][1], vb), -fem.value(u.pieces[0][1], va))
        ctx.expect(O.close(got, want), "theorem", f"gradient along edges:{cell}", f"edge {e}", got=got, want=want, key=f"grad|{cell}|{e}")
    v = gen.rand_fun(r, t, "v", 2, r.choice(["plain", "lazy"]))
    if t == 2:
        from symfem.symbols import x

        flux = number((v.sym[1].diff(x[0]) - v.sym[0].diff(x[1])).integral(ref))
        loops = [(flux, list(range(len(verts))), None)]
    else:
        curl = v.sym.curl()
        loops = []
        for f, vs in enumerate(O.sub_entities(cell, 2)):
            sub = ref.sub_entity(2, f)
            loops.append((number(curl.dot(VectorFunction(sub.normal())).integral(sub)), list(vs), [number(c) for c in sub.normal()]))
    for f, (flux, vs, n) in enumerate(loops):
        circ = O.F0
        mid = [sum((O.num(verts[i][k]) for i in vs), O.F0) / len(vs) for k in range(t)]
        for e, (a, b) in enumerate(O.sub_entities(cell, 1)):
            if a in vs and b in vs:
                sub = ref.sub_entity(1, e)
                ea, eb = [[number(c) for c in w] for w in sub.vertices]
                d, m = O.vsub(eb, ea), O.vsub(ea, mid)
                if n is None:
                    sgn = O.add(O.mul(m[0], d[1]), -O.mul(m[1], d[0]))
                else:
                    sgn = O.dotp(O.cross(m, d), n)
                val = number(v.sym.dot(VectorFunction(sub.tangent())).integral(sub))
                circ = O.add(circ, val if sgn > 0 else -val)
        ctx.expect(
            O.close(flux, circ), "theorem", f"Stokes:{cell}", f"face {f}", flux=flux, circulation=circ, key=f"stokes|{cell}|{f}|{v.form}"
        )


ELS = [
    ("triangle", "P", 3), ("quadrilateral", "Q", 2), ("tetrahedron", "P", 2), ("triangle", "RT", 2), ("quadrilateral", "RTCF", 2),
    ("tetrahedron", "N1curl", 1), ("hexahedron", "NCE", 1), ("hexahedron", "NCF", 1), ("prism", "Lagrange", 1), ("tetrahedron", "BDM", 1),
    ("triangle", "Regge", 1), ("triangle", "HHJ", 1), ("interval", "Hermite", 3), ("triangle", "Argyris", 5), ("triangle", "HCT", 3), ("triangle", "Guzman-Neilan", 1),
    ("pyramid", "Lagrange", 2), ("interval", "P", 4), ("triangle", "P1-iso-P2", 1), ("tetrahedron", "Alfeld-Sorokina", 2), ("triangle", "Alfeld-Sorokina", 2),
]  # fmt: skip


def elements(ctx, gseed):
    """Basis functions of real elements: reference, mapped, and combinations."""
    import symfem
    from symfem.symbols import x

    r = random.Random(gseed)
    cell, name, order = r.choice(ELS)
    t = O.TDIM[cell]
    el = symfem.create_element(cell, name, order)
    i = r.randrange(el.space_dim)
    b = el.get_basis_function(i)
    A, c, verts = O.rand_affine_cell(r, cell)
    funs = [("basis", b), ("plain", b.get_function())]
    if t == 3 or cell != "pyramid":
        try:
            funs.append(("mapped", el.map_to_cell(tuple(O.spt(v) for v in verts))[i]))
        except symfem.references.NonDefaultReferenceError:
            pass  # cannot be mapped (P05)
    for form, f in funs:
        pieces = fem.read(f)
        try:
            for vs, comps in pieces:
                tree(lambda k: k.P(), comps)
        except fem.OutOfModel:
            # rational functions: compare the operators with each other only
            ctx.skip("not polynomial")
            continue

        def at(p):
            if pieces[0][0] is None:
                return tree(lambda k: jet(k.P(), p), pieces[0][1])
            hit = [c for vs, c in pieces if fem.in_piece(vs, p, t)]
            if len(hit) != 1:
                raise Outside
            return tree(lambda k: jet(k.P(), p), hit[0])

        kind = "s" if f.is_scalar else "v" if f.is_vector else "m"
        g = F(f, at, kind, f"{form}|{name}", None)
        if form == "mapped":
            pts = [O.affine_point(*O.frame(cell, verts), O.rand_point_in(r, cell, 40)) for _ in range(2)]
        else:
            pts = [O.rand_point_in(r, cell, 40) for _ in range(2)]
        for k in range(t):
            check(ctx, "diff", f.diff(x[k]), lambda j, k=k: tree(lambda c: jd(c, k), j), g, t, pts)
        if kind == "s":
            check(ctx, "grad", f.grad(t), lambda j: jgrad(j, t), g, t, pts)
            check(ctx, "jacobian", f.jacobian(t), lambda j: jhess(j, t), g, t, pts)
            check(ctx, "laplacian", f.grad(t).div(), lambda j: jdiv(jgrad(j, t)), g, t, pts)
            d = O.spt([O.rand_frac(r, -2, 2) for _ in range(t)])
            check(
                ctx,
                "directional_derivative",
                f.directional_derivative(d),
                lambda j: sum((jd(j, i) * O.num(c) for i, c in enumerate(d)), O.Poly(3)),
                g,
                t,
                pts,
            )
        if kind == "v":
            check(ctx, "div", f.div(), jdiv, g, t, pts)
            if t == 3:
                check(ctx, "curl", f.curl(), jcurl, g, t, pts)
