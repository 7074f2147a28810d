"""P11: integrals over cells and sub-entities are exact, linear, additive and use the positive measure."""

import random
from fractions import Fraction

from harness import fem, gen
from harness import oracle as O
from harness.core import Case

PROPERTY = "P11"
TECHNIQUE = "runtime monitor: integral() of random functions over random cells and sub-entities against exact moment formulas"
RULE = (
    "One case = a cell (default, random affine image, reflected, or embedded in a higher dimension) with random scalar functions: "
    "polynomials, products with parameters, components of vectors and matrices, lazy basis functions, functions of the local "
    "coordinates, piecewise functions, rational functions on the pyramid and exponentials; each is integrated over the cell and over "
    "every sub-entity and compared with closed-form moments times the Gram measure. Metamorphic cases: linearity, subdivision, vertex "
    "renumbering, other variable names. Distinct = kind of function x domain type x cell x embedding."
)
ASSUMPTIONS = [
    "cells are affine images of the reference cells (parallelogram quadrilaterals, parallelepiped hexahedra)",
    "piecewise functions are integrated over domains that no interior interface of the subdivision contains",
]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 200}
FLOOR = 3000

CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]
EMBED = [("interval", 2), ("interval", 3), ("triangle", 3), ("quadrilateral", 3)]


def cases(tier, seed):
    rng = random.Random(f"p11/{seed}")
    out = []

    def add(name, fn, args, cost):
        out.append(Case(name, fn, [*args, rng.randint(0, 10**9)], cost))

    m = 8 if tier == "quick" else 120
    for cell in CELLS:
        for k in range(m):
            add(f"plain/{cell}/{k}", "plain", [cell, O.TDIM[cell]], 3)
            add(f"local/{cell}/{k}", "local", [cell, O.TDIM[cell]], 3)
        for k in range(m // 2):
            add(f"laws/{cell}/{k}", "laws", [cell, O.TDIM[cell]], 2)
    for cell, g in EMBED:
        for k in range(m // 2):
            add(f"plain/{cell}{g}/{k}", "plain", [cell, g], 2)
            add(f"local/{cell}{g}/{k}", "local", [cell, g], 2)
            add(f"laws/{cell}{g}/{k}", "laws", [cell, g], 2)
    for cell in ("interval", "triangle", "quadrilateral", "tetrahedron"):
        for k in range(m):
            add(f"piecewise/{cell}/{k}", "piecewise", [cell], 3)
    for k in range(m):
        add(f"special/{k}", "special", [], 2)
        add(f"elements/{k}", "elements", [], 4)
    return out


def make(r, cell, gdim):
    import symfem

    t = O.TDIM[cell]
    if t == gdim:
        if r.random() < 0.3:
            return symfem.create_reference(cell), [tuple(map(Fraction, v)) for v in O.VERTS[cell]]
        A, c, verts = O.rand_affine_cell(r, cell)
    else:
        while True:
            axes = [[O.rand_frac(r, -2, 2) for _ in range(gdim)] for _ in range(t)]
            if O.gram_measure(axes) != 0:
                break
        o = [O.rand_frac(r, -2, 2) for _ in range(gdim)]
        verts = [tuple(O.affine_point(o, axes, v)) for v in O.VERTS[cell]]
    return symfem.create_reference(cell, tuple(O.spt(v) for v in verts)), [tuple(v) for v in verts]


def scalar(ctx, got, what, key, allow_raw=False):
    """The number an integral stands for (it has to be a scalar function)."""
    import sympy

    if hasattr(got, "get_function"):
        got = got.get_function()
    ctx.expect(
        hasattr(got, "as_sympy") and got.is_scalar,
        "type",
        f"type:{what}",
        f"integral returns a {type(got).__name__}, not a function",
        key=f"type|{what}",
    )
    return sympy.sympify(got.as_sympy() if hasattr(got, "as_sympy") else got)


def entities(cell, verts, gdim):
    """[(dim, index, cell type or None for points, vertices)]"""
    out = []
    for d in range(O.TDIM[cell] + 1):
        for i, ent in enumerate(O.sub_entities(cell, d)):
            vs = [verts[k] for k in ent]
            out.append((d, i, "point" if d == 0 else O.entity_type(d, len(vs)), vs))
    return out


def exact(p, etype, vs):
    if etype == "point":
        return p(list(vs[0]) + [O.F0] * (p.n - len(vs[0])))
    return O.integrate_cell(p, etype, [list(v) for v in vs])


def pick(r, ents, cell):
    """The cell, and a sample of its sub-entities."""
    top = [e for e in ents if e[0] == O.TDIM[cell]]
    rest = [e for e in ents if e[0] < O.TDIM[cell]]
    r.shuffle(rest)
    seen, out = set(), []
    for e in rest:  # one of each type first
        if e[2] not in seen:
            seen.add(e[2])
            out.append(e)
    return top + out + [e for e in rest if e not in out][:4]


def domain(ref, d, i):
    return ref if d == ref.tdim and len(ref.sub_entities(d)) == 1 and i == 0 else ref.sub_entity(d, i)


def plain(ctx, cell, gdim, gseed):
    """Random functions of the physical coordinates."""
    import sympy
    from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction

    r = random.Random(gseed)
    ref, verts = make(r, cell, gdim)
    emb = f"{cell}{gdim}"
    al = sympy.Symbol("alpha")
    for d, i, et, vs in pick(r, entities(cell, verts, gdim), cell):
        dom = domain(ref, d, i)
        what = f"{et} of {emb}"
        p = O.rand_poly(r, gdim, r.randint(0, 4), 5)
        s = O.poly_to_sympy(p)
        want = exact(p, et, vs)
        key = f"{what}"

        def chk(name, got, w=want, env={}):
            g = O.ev(scalar(ctx, got, what, key), env)
            ctx.expect(
                O.close(g, w),
                "integral",
                f"{name}:{what}",
                f"{s} over {[[str(c) for c in v] for v in vs]}",
                got=g,
                want=w,
                key=f"{key}|{name}",
            )

        f = ScalarFunction(s)
        chk("polynomial", f.integral(dom))
        if r.random() < 0.5:
            form = r.choice([sympy.factor(s), sympy.expand(s), s * (al + 1) - al * s])
            chk("polynomial in another form", ScalarFunction(form).integral(dom), env={"alpha": Fraction(5)})
        k = r.randrange(4)
        if k == 0:
            chk("component", VectorFunction((1, s, 3))[1].integral(dom))
        elif k == 1:
            chk("entry", MatrixFunction(((1, 2), (s, 3)))[1, 0].integral(dom))
        elif k == 2:
            chk("parameter", ScalarFunction(s * al).integral(dom), O.mul(want, Fraction(7, 3)), {"alpha": Fraction(7, 3)})
        elif gdim == O.TDIM[cell] and ("s", gdim) in gen.LAZY:
            el = gen.lazy_element("s", gdim)
            b = el.get_basis_function(r.randrange(el.space_dim))
            q = fem.read_plain(b).P()
            chk("basis function", b.integral(dom), exact(q, et, vs))
            chk("product with a basis function", (b * f).integral(dom), exact(q * gen.pad(p), et, vs))
    ctx.sample({"cell": emb, "vertices": [[str(c) for c in v] for v in verts]})


def local(ctx, cell, gdim, gseed):
    """Functions of both the physical (x) and the local (t) coordinates, and other variable names."""
    import sympy
    from symfem.functions import ScalarFunction
    from symfem.symbols import t as T
    from symfem.symbols import x

    r = random.Random(gseed)
    ref, verts = make(r, cell, gdim)
    emb = f"{cell}{gdim}"
    for d, i, et, vs in pick(r, entities(cell, verts, gdim), cell):
        if d == 0:
            continue
        dom = domain(ref, d, i)
        what = f"{et} of {emb}"
        p = O.rand_poly(r, gdim, r.randint(0, 2), 3)
        q = O.rand_poly(r, d, r.randint(0, 3), 3)
        o, axes = O.frame(et, [list(v) for v in vs])
        # in local coordinates: p(map(t)) q(t)
        loc = p.compose(O.affine_polys(o, axes, d)) * q
        want = O.mul(O.integrate_ref(loc, et), O.gram_measure(axes))
        ps = O.poly_to_sympy(p)
        qs = O.poly_to_sympy(q, [str(s) for s in T])
        qs = qs.subs({sympy.Symbol(str(s)): s for s in T})

        def chk(name, got):
            g = O.ev(scalar(ctx, got, what, what), {})
            ctx.expect(
                O.close(g, want),
                "integral",
                f"{name}:{what}",
                f"({ps})*({qs}) over {[[str(c) for c in v] for v in vs]}",
                got=g,
                want=want,
                key=f"{what}|{name}",
            )

        chk("local coordinates", ScalarFunction(ps * qs).integral(dom))
        y, u = sympy.symbols("y0 y1 y2"), sympy.symbols("u0 u1 u2")
        f2 = (ps.subs(dict(zip(x, y)), simultaneous=True)) * qs.subs(dict(zip(T, u)), simultaneous=True)
        chk("other names", ScalarFunction(f2).integral(dom, y, u))
        chk("other dummies", ScalarFunction(ps * qs.subs(dict(zip(T, u)), simultaneous=True)).integral(dom, x, u))
        if r.random() < 0.3:
            chk("names swapped", ScalarFunction(ps.subs(dict(zip(x, y)), simultaneous=True) * qs).integral(dom, vars=y, dummy_vars=T))


def laws(ctx, cell, gdim, gseed):
    """Linearity, vertex numbering, additivity over subdivisions, measure of the cell."""
    import symfem
    from symfem.functions import ScalarFunction

    r = random.Random(gseed)
    ref, verts = make(r, cell, gdim)
    emb = f"{cell}{gdim}"
    t = O.TDIM[cell]
    p, q = (O.rand_poly(r, gdim, 3, 4) for _ in range(2))
    f, g = ScalarFunction(O.poly_to_sympy(p)), ScalarFunction(O.poly_to_sympy(q))

    def val(h, dom=ref):
        return O.ev(scalar(ctx, h.integral(dom), emb, emb), {})

    a, b = O.rand_frac(r, -3, 3), O.rand_frac(r, -3, 3)
    If, Ig = val(f), val(g)
    comb = val(f * O.sp(a) + g * O.sp(b))
    ctx.expect(O.close(comb, O.add(O.mul(a, If), O.mul(b, Ig))), "law", f"linearity:{emb}", got=comb, key=f"lin|{emb}")
    one = val(ScalarFunction(1))
    want = O.mul(O.VOLUME[cell], O.gram_measure(O.frame(cell, [list(v) for v in verts])[1]))
    ctx.expect(O.close(one, want), "law", f"measure:{emb}", got=one, want=want, key=f"measure|{emb}")
    if cell != "quadrilateral" or gdim == 2:
        vol = O.ev(scalar_raw(ref.volume()), {})
        ctx.expect(O.close(one, vol), "law", f"integral of 1 against volume:{emb}", got=one, want=vol, key=f"volume|{emb}")
    # another numbering of the same cell
    n = len(verts)
    sym = {"interval": [[1, 0]], "triangle": None, "tetrahedron": None, "quadrilateral": [[1, 0, 3, 2], [0, 2, 1, 3], [2, 0, 3, 1], [3, 2, 1, 0]],
           "hexahedron": [[1, 0, 3, 2, 5, 4, 7, 6], [0, 2, 1, 3, 4, 6, 5, 7], [4, 5, 6, 7, 0, 1, 2, 3]], "prism": [[1, 2, 0, 4, 5, 3], [0, 2, 1, 3, 5, 4], [3, 4, 5, 0, 1, 2]],
           "pyramid": [[0, 2, 1, 3, 4], [1, 0, 3, 2, 4]]}[cell]  # fmt: skip
    perm = r.choice(sym) if sym else r.sample(range(n), n)
    other = symfem.create_reference(cell, tuple(O.spt(verts[k]) for k in perm))
    got = val(f, other)
    ctx.expect(O.close(got, If), "law", f"vertex numbering:{emb}", f"{perm}", got=got, want=If, key=f"perm|{emb}")
    sub = gen.subdivision(r, cell, verts)
    if sub:
        tot = O.F0
        for vs in sub:
            c = fem.piece_type(vs, t)
            tot = O.add(tot, val(f, symfem.create_reference(c, tuple(O.spt(v) for v in vs))))
        ctx.expect(O.close(tot, If), "law", f"additivity:{emb}", f"{len(sub)} parts", got=tot, want=If, key=f"add|{emb}|{len(sub)}")


def scalar_raw(v):
    import sympy

    return sympy.sympify(v.as_sympy() if hasattr(v, "as_sympy") else v)


def piecewise(ctx, cell, gseed):
    """Piecewise functions over the cell, its facets and edges, one piece, and a neighbourhood of a corner."""
    import symfem
    from symfem.piecewise_functions import PiecewiseFunction

    r = random.Random(gseed)
    t = O.TDIM[cell]
    ref, verts = make(r, cell, t)
    sub = gen.subdivision(r, cell, verts)
    r.shuffle(sub)
    ps = [O.rand_poly(r, t, 3, 4) for _ in sub]
    f = PiecewiseFunction({tuple(O.spt(v) for v in vs): O.poly_to_sympy(p) for vs, p in zip(sub, ps)}, t)
    pieces = [(list(vs), gen.pad3(p)) for vs, p in zip(sub, ps)]
    if r.random() < 0.3:
        q = O.rand_poly(r, t, 1, 2)
        f = f * O.poly_to_sympy(q) + 1
        pieces = [(vs, fem.Comp(c.P() * gen.pad(q) + 1)) for vs, c in pieces]

    def chk(name, dom, want):
        try:
            res = f.integral(dom)
        except NotImplementedError as e:  # a piece and the domain touch in a way symfem does not support
            ctx.skip(f"piecewise {cell} {name}: {e}")
            return
        got = O.ev(scalar(ctx, res, f"piecewise {name}", name), {})
        ctx.expect(
            O.close(got, want),
            "integral",
            f"piecewise:{cell}:{name}",
            f"over {dom.vertices}",
            got=got,
            want=want,
            key=f"pw|{cell}|{name}|{len(sub)}",
        )

    for d, i, et, vs in entities(cell, verts, t):
        if d == 0:
            continue
        dom = fem.Cell(et, [list(v) for v in vs])
        try:
            want = fem.integrate_over(pieces, dom, t, lambda c, phys, loc: fem._compose(c, phys))
        except fem.OutOfModel:
            ctx.skip("interface inside the domain")
            continue
        chk(f"{et}", domain(ref, d, i), want)
    k = r.randrange(len(sub))
    pt = fem.piece_type(sub[k], t)
    part = symfem.create_reference(pt, tuple(O.spt(v) for v in sub[k]))
    chk("one piece", part, O.integrate_cell(pieces[k][1].P(), pt, [list(v) for v in sub[k]]))
    # a part of one piece
    o, axes = O.frame(pt, [list(v) for v in sub[k]])
    ctr = [Fraction(1, t + 2)] * t
    small = [O.affine_point(o, axes, [c + (v - c) * Fraction(1, 3) for v, c in zip(vv, ctr)]) for vv in O.VERTS[pt]]
    part = symfem.create_reference(pt, tuple(O.spt(v) for v in small))
    try:
        got = f.integral(part)
    except (NotImplementedError, ValueError, AssertionError):
        ctx.skip("part of a piece refused")
    else:
        g, w = O.ev(scalar_raw(got), {}), O.integrate_cell(pieces[k][1].P(), pt, [list(v) for v in small])
        ctx.expect(O.close(g, w), "integral", f"piecewise:{cell}:part of a piece", got=g, want=w, key=f"pw|{cell}|part")


def special(ctx, gseed):
    """Rational functions on the pyramid, exponentials, roots, and the raw integrate()."""
    import mpmath
    import symfem
    import sympy
    from symfem.functions import ScalarFunction
    from symfem.symbols import x

    r = random.Random(gseed)
    pyr = symfem.create_reference("pyramid")
    i, j = r.randint(0, 3), r.randint(0, 3)
    k = r.randint(-min(i + j + 2, 3), 2)
    got = O.ev(scalar(ctx, ScalarFunction(x[0] ** i * x[1] ** j * (1 - x[2]) ** k).integral(pyr), "pyramid", "pyramid"), {})
    want = Fraction(1, (i + 1) * (j + 1) * (k + i + j + 3))
    ctx.expect(O.close(got, want), "integral", "rational:pyramid", f"x^{i} y^{j} (1-z)^{k}", got=got, want=want, key=f"rational|{k}")
    a = r.choice([-2, -1, 1, 2])
    lo, hi = sorted(r.sample(range(-3, 4), 2))
    iv = symfem.create_reference("interval", ((lo,), (hi,)) if r.random() < 0.5 else ((hi,), (lo,)))
    got = O.ev(scalar(ctx, ScalarFunction(sympy.exp(a * x[0])).integral(iv), "interval", "interval"), {})
    want = (mpmath.exp(a * hi) - mpmath.exp(a * lo)) / a
    ctx.expect(O.close(got, want), "integral", "exp:interval", f"exp({a}x) on [{lo},{hi}]", got=got, want=want, key=f"exp|{a}")
    q = symfem.create_reference("quadrilateral", ((0, 0), (hi - lo, 0), (0, 2), (hi - lo, 2)))
    got = O.ev(scalar(ctx, ScalarFunction(sympy.exp(a * x[0]) * sympy.sin(x[1])).integral(q), "quadrilateral", "quadrilateral"), {})
    want = (mpmath.exp(a * (hi - lo)) - 1) / a * (1 - mpmath.cos(2))
    ctx.expect(O.close(got, want), "integral", "exp sin:quadrilateral", got=got, want=want, key="expsin")
    ir = symfem.create_reference("interval", ((0,), (sympy.sqrt(2),)))
    n = r.randint(0, 4)
    got = O.ev(scalar(ctx, ScalarFunction(x[0] ** n).integral(ir), "interval", "interval"), {})
    ctx.expect(O.close(got, mpmath.sqrt(2) ** (n + 1) / (n + 1)), "integral", "irrational interval", got=got, key="sqrt2")
    p = O.rand_poly(r, 2, 3, 4)
    lim = [(x[0], O.sp(O.rand_frac(r)), O.sp(O.rand_frac(r))), (x[1], O.sp(O.rand_frac(r)), O.sp(O.rand_frac(r)))]
    got = ScalarFunction(O.poly_to_sympy(p)).integrate(*lim)
    want = O.F0
    for e, c in p.c.items():
        w = c
        for kk, (_, s0, s1) in zip(e, lim):
            s0, s1 = O.num(s0), O.num(s1)
            w = w * (s1 ** (kk + 1) - s0 ** (kk + 1)) / (kk + 1)
        want += w
    got = O.ev(scalar(ctx, got, "integrate", "integrate"), {})
    ctx.expect(O.close(got, want), "integral", "integrate()", f"{p} {lim}", got=got, want=want, key="integrate")


ELS = [
    ("interval", "P", 3), ("triangle", "P", 3), ("triangle", "N1curl", 2), ("triangle", "RT", 2), ("triangle", "Regge", 1), ("quadrilateral", "Q", 2), ("quadrilateral", "RTCF", 2),
    ("tetrahedron", "P", 2), ("tetrahedron", "N1curl", 1), ("tetrahedron", "RT", 1), ("hexahedron", "Q", 1), ("hexahedron", "NCE", 1), ("prism", "Lagrange", 1), ("prism", "Nedelec", 1),
    ("triangle", "HCT", 3), ("triangle", "P1-iso-P2", 1), ("quadrilateral", "P1-iso-P2", 1), ("triangle", "Guzman-Neilan", 1), ("triangle", "Alfeld-Sorokina", 2),
]  # fmt: skip


def elements(ctx, gseed):
    """Basis functions, on the reference cell and mapped, over the cell and its sub-entities."""
    import symfem

    r = random.Random(gseed)
    for cell, name, order in r.sample(ELS, 4):
        t = O.TDIM[cell]
        el = symfem.create_element(cell, name, order)
        i = r.randrange(el.space_dim)
        A, c, verts = O.rand_affine_cell(r, cell)
        todo = [(el.reference, [tuple(map(Fraction, v)) for v in O.VERTS[cell]], el.get_basis_function(i), "reference")]
        try:
            mapped = el.map_to_cell(tuple(O.spt(v) for v in verts))[i]
            todo.append((symfem.create_reference(cell, tuple(O.spt(v) for v in verts)), verts, mapped, "mapped"))
        except symfem.references.NonDefaultReferenceError:
            pass
        for ref, vv, f, where in todo:
            pieces = fem.read(f)
            if not f.is_scalar:
                k = r.randrange(t)
                f = f[k] if f.is_vector else f[k][0] if pieces[0][0] is not None else f[k, 0]
                pieces = [(vs, comps[k] if not isinstance(comps[k], list) else comps[k][0]) for vs, comps in pieces]
            ents = [e for e in pick(r, entities(cell, [tuple(v) for v in vv], t), cell) if e[0] > 0][:4]
            for d, n, et, vs in ents:
                dom = fem.Cell(et, [list(v) for v in vs])
                try:
                    want = fem.integrate_over(pieces, dom, t, lambda c, phys, loc: fem._compose(c, phys))
                except fem.OutOfModel:
                    ctx.skip("not resolved")
                    continue
                try:
                    res = f.integral(domain(ref, d, n))
                except NotImplementedError as e:
                    ctx.skip(f"{name} {et}: {e}")
                    continue
                got = O.ev(scalar(ctx, res, "element", "element"), {})
                ctx.expect(
                    O.close(got, want), "integral", f"basis function:{cell}/{name}:{where}:{et}", f"function {i}", got=got, want=want,
                    key=f"el|{cell}|{name}|{where}|{et}",
                )  # fmt: skip
