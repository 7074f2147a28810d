"""P12: piecewise functions are consistent over their pieces; macro and dual elements cover their cells."""

import itertools
import random
from fractions import Fraction

from harness import fem, gen
from harness import oracle as O
from harness.core import Case

PROPERTY = "P12"
TECHNIQUE = "runtime monitor: evaluation, permutation and interface oracles on random subdivisions and on every macro and dual element"
RULE = (
    "One case = a random (nested) subdivision of a random cell with random scalar, vector or matrix pieces, evaluated inside, on the "
    "interfaces and outside, in permuted piece orders; or a macro element (on the reference cell, on random cells it accepts, and mapped "
    "to random cells) or dual element, whose pieces are checked for covering the cell once and whose functions are compared across every "
    "interior facet with the declared continuity and with the values that define the dual spaces. Distinct = kind x cell x piece count x "
    "place of the point, and element x cell x interface."
)
ASSUMPTIONS = [
    "at a point shared by several pieces the value of any of them is accepted",
    "continuity is compared with exact polynomials, on the dual polygons with irrational vertices to 20 digits",
]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 240}
FLOOR = 3000

CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron"]
# cell, name, order, interior continuity, mapping, what happens on other cells
MACRO = [
    ("interval", "P1-iso-P2", 1, "C0"),
    ("triangle", "P1-iso-P2", 1, "C0"),
    ("quadrilateral", "P1-iso-P2", 1, "C0"),
    ("triangle", "P1 macro", 1, "C0"),
    ("triangle", "HCT", 3, "C1"),
    ("triangle", "rHCT", 3, "C1"),
    ("triangle", "Alfeld-Sorokina", 2, "C0 div"),
    ("triangle", "Guzman-Neilan", 1, "C0"),
    ("tetrahedron", "Guzman-Neilan", 1, "C0"),
    ("tetrahedron", "Guzman-Neilan", 2, "C0"),
]
# the interior of the Guzman-Neilan functions is continuous: they are continuous piecewise polynomials
DUAL = [
    ("dual polynomial", 0, "C0"),
    ("dual polynomial", 1, "C0"),
    ("Buffa-Christiansen", 1, "H(div)"),
    ("rotated Buffa-Christiansen", 1, "H(curl)"),
]


def cases(tier, seed):
    rng = random.Random(f"p12/{seed}")
    out = []

    def add(name, fn, args, cost):
        out.append(Case(name, fn, [*args, rng.randint(0, 10**9)], cost))

    m = 10 if tier == "quick" else 150
    for cell in CELLS:
        for k in range(m):
            add(f"random/{cell}/{k}", "randomly", [cell], 3)
        for k in range(m // 2):
            add(f"order/{cell}/{k}", "orders", [cell], 3)
    for k in range(m // 2):
        add(f"refusals/{k}", "refusals", [], 1)
    for cell, name, order, cont in MACRO:
        heavy = cell == "tetrahedron"
        add(f"macro/{cell}/{name}/{order}", "macro", [cell, name, order, cont], 20 if heavy else 3)
        for k in range((1 if heavy else 3) if tier == "quick" else (4 if heavy else 30)):
            if heavy and order == 2 and tier == "quick":
                continue
            add(f"mapped/{cell}/{name}/{order}/{k}", "mapped", [cell, name, order, cont], 20 if heavy else 4)
    sizes = [3, 4, 5, 6] if tier == "quick" else [3, 4, 5, 6, 7, 8]
    for n in sizes:
        for name, order, cont in DUAL:
            add(f"dual/{n}/{name}/{order}", "dual", [n, name, order, cont], 6)
    return out


# ---------------------------------------------------------------- random piecewise functions


def measure(cell, verts):
    return O.VOLUME[cell] * O.gram_measure(O.frame(cell, verts)[1])


def point_in(r, cell, verts):
    o, axes = O.frame(cell, [tuple(O.num(c) for c in v) for v in verts])
    return tuple(O.affine_point(o, axes, O.rand_point_in(r, cell)))


def subdivide(r, cell, verts):
    """A subdivision, possibly nested: hanging vertices are welcome."""
    out = gen.subdivision(r, cell, verts)
    for _ in range(r.randrange(3)):
        i = r.randrange(len(out))
        kind = fem.piece_type(out[i], O.TDIM[cell])
        sub = gen.subdivision(r, kind, out[i])
        if sub is not None:
            out[i : i + 1] = sub
    r.shuffle(out)
    return out


def rand_cell(r, cell):
    if r.random() < 0.3:
        return [tuple(map(Fraction, v)) for v in O.VERTS[cell]]
    return O.rand_affine_cell(r, cell)[2]


def make(r, cell, kind=None, deg=2, shape=None):
    from symfem.piecewise_functions import PiecewiseFunction

    t = O.TDIM[cell]
    verts = rand_cell(r, cell)
    sub = subdivide(r, cell, verts)
    kind = kind or r.choice("svm")
    if kind != "s" and shape is None:
        shape = r.choice([(t,), (3,), (2,)]) if kind == "v" else r.choice([(t, t), (2, 3), (2, 2)])
        if 1 in shape:
            shape = None
            kind = "s"
    fs = [gen.rand_comps(r, t, kind, deg, shape) for _ in sub]
    d = {tuple(O.spt(v) for v in s): gen.to_sym(q) for s, q in zip(sub, fs)}
    return verts, sub, kind, fs, d, PiecewiseFunction(d, t), [(list(s), gen.pad3(q)) for s, q in zip(sub, fs)]


def places(r, cell, verts, sub):
    """Points inside the pieces, on their facets and vertices, and outside the cell."""
    t = O.TDIM[cell]
    for s in sub:
        k = fem.piece_type(s, t)
        yield "inside", point_in(r, k, s)
        yield "vertex", s[r.randrange(len(s))]
        if t > 1:
            i, j = r.sample(range(len(s)), 2)
            a = Fraction(r.randint(1, 7), 8)
            if not (len(s) == 4 and t == 2):
                yield "edge", tuple(x + a * (y - x) for x, y in zip(s[i], s[j]))
        if t == 3:
            tri = r.sample(s, 3)
            w = [Fraction(r.randint(1, 5)) for _ in tri]
            yield "facet", tuple(sum(w[i] * tri[i][c] for i in range(3)) / sum(w) for c in range(3))


def outside(r, cell, verts, sub):
    o, axes = O.frame(cell, verts)
    t = O.TDIM[cell]
    for eps in (Fraction(1, 1000), Fraction(1, 5), Fraction(3)):
        loc = [O.rand_frac(r, 0, 1) for _ in range(t)]
        i = r.randrange(t)
        loc[i] = -eps if r.random() < 0.5 else 1 + eps
        if cell in ("triangle", "tetrahedron") and r.random() < 0.4:
            # beyond the long facet, within the bounding box of the reference cell
            loc = [(1 + eps) * x for x in bary(r, t)]
        yield tuple(O.affine_point(o, axes, loc))


def bary(r, t):
    w = [Fraction(r.randint(1, 5)) for _ in range(t)]
    return [x / sum(w) for x in w]


def observe(f, pt, t, how):
    """The value symfem gives at a point, in one of the ways a user asks."""
    import sympy
    from symfem.symbols import x

    if how == "piece":
        g = f.get_piece(pt)
        return g.subs(x[:t], pt)
    if how == "tuple":
        return f.subs(x[:t], pt)
    if how == "list":
        return f.subs(list(x[:t]), list(pt))
    if how == "all":
        return f.subs(x, tuple(pt) + (sympy.Integer(0),) * (3 - t))
    perm = list(range(t))[::-1]
    return f.subs([x[i] for i in perm], [pt[i] for i in perm])


HOW = ["piece", "tuple", "list", "all", "reversed"]


def read_value(v):
    if getattr(v, "pieces", None) is not None and not callable(v.pieces):
        return None
    from sympy import Expr

    s = v if isinstance(v, Expr) else v.as_sympy()
    return fem.value(fem.read_plain(s), (O.F0, O.F0, O.F0))


def randomly(ctx, cell, seed):
    from symfem.symbols import x

    r = random.Random(seed)
    t = O.TDIM[cell]
    verts, sub, kind, fs, d, f, pieces = make(r, cell)
    deriv = f.diff(x[r.randrange(t)]) if r.random() < 0.3 else None
    for where, p in places(r, cell, verts, sub):
        p = tuple(p)
        how = r.choice(HOW)
        want = fem.values_at(pieces, p, t)
        got = read_value(observe(f, O.spt(p), t, how))
        ctx.expect(
            any(fem.same_value(got, w) for w in want), "evaluate", f"evaluate:{cell}:{where}",
            f"{kind} function on {cell} at {p} ({how}) is {got}, its pieces there say {want}",
            key=f"{cell}|{kind}|{len(sub)}|{where}|{how}",
        )  # fmt: skip
        if deriv is not None and where == "inside":
            got = read_value(observe(deriv, O.spt(p), t, how))
            ctx.expect(got is not None, "evaluate", f"derivative evaluates:{cell}", f"{got}", key=f"{cell}|{kind}|derivative")
    for p in outside(r, cell, verts, sub):
        if any(fem.in_piece(s, p, t) for s in sub):
            continue
        how = r.choice(HOW)
        try:
            got = observe(f, O.spt(p), t, how)
        except (NotImplementedError, ValueError) as e:
            ctx.expect(True, "outside", "", "", key=f"{cell}|{kind}|outside|{how}|{type(e).__name__}")
            continue
        ctx.violate(f"outside:{cell}", f"a point outside all pieces, {p} ({how}), gives {got}")
    # floats inside pieces, well away from the interfaces
    for s in sub[:3]:
        c = [sum(v[i] for v in s) / len(s) for i in range(t)]
        got = read_value(observe(f, tuple(float(i) for i in c), t, "tuple"))
        want = fem.values_at(pieces, tuple(c), t)
        ctx.expect(
            any(fem.same_value(got, w, 1e-9) for w in want), "evaluate", f"evaluate floats:{cell}", f"{got} for {want}",
            key=f"{cell}|{kind}|floats",
        )  # fmt: skip


def orders(ctx, cell, seed):
    """The order in which the pieces are listed does not matter."""
    import symfem
    from symfem.piecewise_functions import PiecewiseFunction
    from symfem.symbols import x

    r = random.Random(seed)
    t = O.TDIM[cell]
    verts, sub, kind, fs, d, f, pieces = make(r, cell)
    items = list(d.items())
    while True:
        r.shuffle(items)
        if len(items) == 1 or items != list(d.items()):
            break
    g = PiecewiseFunction(dict(items), t)
    ctx.expect(f == g and g == f, "order", f"equality:{cell}", "a permuted piecewise function is not equal", key=f"{cell}|{kind}|eq")
    tests = [("itself", f, g), ("diff", f.diff(x[0]), g.diff(x[0])), ("neg", -f, -g)]
    if kind == "s":
        tests += [("grad", f.grad(t), g.grad(t)), ("jacobian", f.jacobian(t), g.jacobian(t))] if t > 1 else []
        tests += [("square", f * f, g * g), ("mixed", f * g, f * f), ("sum", f + g, 2 * f)]
    elif kind == "v":
        tests += [("component", f[0], g[0]), ("norm", f.norm(), g.norm()), ("sum", f + g, 2 * f), ("dot", f.dot(g), f.dot(f))]
        tests += [("div", f.div(), g.div())] if len(fs[0]) == t else []
    else:
        tests += [("transpose", f.transpose(), g.transpose()), ("sum", f + g, 2 * f), ("entry", f[0, 1], g[0, 1])]
    pts = [p for w, p in places(r, cell, verts, sub) if w == "inside"]
    for what, a, b in tests:
        for p in pts:
            va, vb = (read_value(observe(h, O.spt(p), t, "tuple")) for h in (a, b))
            ctx.expect(
                va is not None and fem.same_value(va, vb), "order", f"order of pieces:{what}:{cell}", f"{va} and {vb} at {p}",
                key=f"{cell}|{kind}|{len(sub)}|{what}",
            )  # fmt: skip
    if kind == "s":
        ref = symfem.create_reference(cell, tuple(O.spt(v) for v in verts))
        try:
            va, vb = (read_value(h.integral(ref)) for h in (f, g))
        except NotImplementedError:
            ctx.seen("refused", f"{cell}|integral over a partly covered domain")
        else:
            ctx.expect(fem.same_value(va, vb), "order", f"order of pieces:integral:{cell}", f"{va} and {vb}", key=f"{cell}|integral")
    # as_sympy: one value per piece, or a single one if they agree
    s = f.as_sympy()
    if len(sub) > 1 and any(fs[0] != q for q in fs):
        ok = isinstance(s, dict) and len(s) == len(sub)
        if ok:
            for k, v in s.items():
                vs = [tuple(O.num(c) for c in p) for p in k]
                p = point_in(r, fem.piece_type(vs, t), vs)
                want = fem.values_at(pieces, p, t)
                ok = ok and any(fem.same_value(fem.value(fem.read_plain(v), p), w) for w in want)
        ctx.expect(ok, "as_sympy", f"as_sympy:{cell}", f"{s}", key=f"{cell}|{kind}|as_sympy")
    one = PiecewiseFunction({k: items[0][1] for k, _ in items}, t)
    s = one.as_sympy()
    p = point_in(r, cell, verts)
    first = next(q for q, k in zip(fs, d) if k == items[0][0])
    ctx.expect(
        not isinstance(s, dict) and fem.same_value(fem.value(fem.read_plain(s), p), fem.value(gen.pad3(first), p)),
        "as_sympy", f"as_sympy equal pieces:{cell}", f"{s}", key=f"{cell}|{kind}|as_sympy one",
    )  # fmt: skip


def refusals(ctx, seed):
    """Pieces of different kinds do not make a function; functions on different subdivisions do not mix silently."""
    from symfem.piecewise_functions import PiecewiseFunction

    r = random.Random(seed)
    cell = r.choice(["triangle", "tetrahedron"])
    t = O.TDIM[cell]
    verts = rand_cell(r, cell)
    sub = [tuple(O.spt(v) for v in s) for s in subdivide(r, cell, verts)]
    vals = {"s": 1, "v": (1, 2), "m": ((1, 2), (3, 4))}
    a, b = r.sample("svm", 2)
    fs = [vals[a]] * len(sub)
    fs[r.randrange(len(sub))] = vals[b]
    try:
        got = PiecewiseFunction(dict(zip(sub, fs)), t)
    except (AssertionError, ValueError, TypeError):
        ctx.expect(True, "refused", "", "", key=f"mixed|{a}{b}")
    else:
        ctx.violate("mixed pieces accepted", f"{a} and {b} pieces: {got}")
    # different subdivisions of one cell
    other = [tuple(O.spt(v) for v in s) for s in subdivide(r, cell, verts)]
    if {frozenset(s) for s in sub} == {frozenset(s) for s in other}:
        return
    f = PiecewiseFunction({s: i + 1 for i, s in enumerate(sub)}, t)
    g = PiecewiseFunction({s: 10 * (i + 1) for i, s in enumerate(other)}, t)
    op = r.choice("+-*")
    try:
        h = {"+": lambda: f + g, "-": lambda: f - g, "*": lambda: f * g}[op]()
    except (AssertionError, ValueError, TypeError, NotImplementedError, KeyError):
        ctx.expect(True, "refused", "", "", key=f"subdivisions|{op}")
        return
    for _ in range(5):
        p = O.spt(point_in(r, cell, verts))
        x, y, z = (read_value(observe(q, p, t, "tuple")) for q in (f, g, h))
        want = {"+": O.add(x, y), "-": O.add(x, O.mul(O.num(-1), y)), "*": O.mul(x, y)}[op]
        ctx.expect(fem.same_value(z, want), "pointwise", f"subdivisions:{op}", f"{z} for {want}", key=f"subdivisions pointwise|{op}")


# ---------------------------------------------------------------- macro elements


def cover(ctx, what, cell, verts, fs, r, total=None, n=25):
    """All functions share one subdivision, which covers the cell exactly once."""
    t = len(verts[0])
    keys = [[tuple(tuple(O.num(c) for c in v) for v in k) for k in f.pieces] for f in fs]
    first = {frozenset(k) for k in keys[0]}
    ctx.expect(
        all({frozenset(k) for k in ks} == first and len(ks) == len(first) for ks in keys),
        "cover", f"shared subdivision:{what}", f"{[len(k) for k in keys]}", key=f"{what}|shared",
    )  # fmt: skip
    pieces = keys[0]
    vol = O.F0
    for p in pieces:
        vol = O.add(vol, measure(fem.piece_type(p, t), p))
    want = total if total is not None else measure(cell, verts)
    ctx.expect(O.close(vol, want), "cover", f"measure of pieces:{what}", f"{vol} for {want}", key=f"{what}|measure")
    for _ in range(n):
        p = point_in(r, cell, verts) if total is None else poly_point(r, verts)
        inside = [i for i, q in enumerate(pieces) if fem.in_piece(q, p, t)]
        ctx.expect(len(inside) >= 1, "cover", f"cover:{what}", f"{p} is in no piece", key=f"{what}|covered")
        strict = [i for i, q in enumerate(pieces) if strictly(q, p, t)]
        ctx.expect(len(strict) <= 1, "cover", f"overlap:{what}", f"{p} is inside pieces {strict}", key=f"{what}|overlap")
    if total is None:
        for q in pieces:
            ctx.expect(
                all(fem.in_piece(verts_of(cell, verts), v, t) for v in q), "cover", f"pieces inside the cell:{what}", f"{q}",
                key=f"{what}|inside",
            )  # fmt: skip
    return pieces


def verts_of(cell, verts):
    return [tuple(v) for v in verts]


def strictly(vs, p, t):
    cell = fem.piece_type(vs, t)
    o, axes = O.frame(cell, vs)
    A, b = O.inverse_affine(o, axes)
    q = O.vadd(O.matvec(A, [O.num(i) for i in p]), b)
    if all(isinstance(i, Fraction) for i in q):
        return O.bary_inside(cell, q, strict=True)
    eps = O.mpf(10) ** -20
    q = [O.tomp(i) for i in q]
    if cell in ("triangle", "tetrahedron", "interval"):
        return all(i > eps for i in q) and sum(q) < 1 - eps
    return all(eps < i < 1 - eps for i in q)


def poly_point(r, verts):
    """A point of a dual polygon (star-shaped about the origin)."""
    i = r.randrange(len(verts))
    a, b = verts[i], verts[(i + 1) % len(verts)]
    s, t = Fraction(r.randint(1, 9), 10), Fraction(r.randint(1, 9), 10)
    return tuple(O.mul(t, O.add(O.mul(1 - s, x), O.mul(s, y))) for x, y in zip(a, b))


def same_pt(a, b):
    return all(O.close(x, y) for x, y in zip(a, b))


def interfaces(pieces, t):
    """Pairs of pieces with a common facet (t-1 dimensional), with the facet's vertices."""
    for (i, a), (j, b) in itertools.combinations(list(enumerate(pieces)), 2):
        common = [v for v in a if any(same_pt(v, w) for w in b)]
        if len(common) == t:
            yield i, j, common


def facet_points(common, r, n):
    for _ in range(n):
        w = [Fraction(r.randint(1, 9)) for _ in common]
        yield tuple(O.div(_sum(O.mul(wi, v[c]) for wi, v in zip(w, common)), sum(w)) for c in range(len(common[0])))


def _sum(it):
    out = O.F0
    for i in it:
        out = O.add(out, i)
    return out


def tangents(common):
    return [O.vsub(v, common[0]) for v in common[1:]]


def facet_normal(common, t):
    if t == 1:
        return [O.num(1)]
    ts = tangents(common)
    if t == 2:
        return [O.mul(O.num(-1), ts[0][1]), ts[0][0]]
    return O.cross(ts[0], ts[1])


def traces(cont, comps, pt, common, t):
    """The numbers that must agree on the two sides."""
    flat = fem.flat(comps)
    val = [c.at(pt) for c in flat]
    if cont == "H(div)":
        return [O.dotp(val, facet_normal(common, t))]
    if cont == "H(curl)":
        return [O.dotp(val, v) for v in tangents(common)]
    out = list(val)
    if cont == "C1":
        out += [c.diff(i).at(pt) for c in flat for i in range(t)]
    if cont == "C0 div":
        out.append(_sum(flat[i].diff(i).at(pt) for i in range(t)))
    return out


def continuity(ctx, what, cont, fs, r):
    """The declared continuity across the interior facets of the macro cell."""
    for k, f in enumerate(fs):
        pieces = fem.read(f)
        t = len(pieces[0][0][0])
        count = 0
        for i, j, common in interfaces([p[0] for p in pieces], t):
            count += 1
            deg = 4
            pts = list(facet_points(common, r, 1 if t == 1 else deg + 1 if t == 2 else 12))
            bad = None
            for p in pts:
                a, b = (traces(cont, pieces[m][1], p, common, t) for m in (i, j))
                if not all(O.close(x, y) for x, y in zip(a, b)):
                    bad = (p, a, b)
                    break
            ctx.expect(
                bad is None, "continuity", f"interior {cont}:{what}", f"function {k} across {common}: {bad}",
                key=f"{what}|{cont}|{i}-{j}",
            )  # fmt: skip
        if count == 0:
            ctx.violate(f"no interior facets:{what}", f"{len(pieces)} pieces")


def element(cell, name, order, verts=None):
    import symfem

    kw = {} if verts is None else {"vertices": tuple(O.spt(v) for v in verts)}
    return symfem.create_element(cell, name, order, **kw)


def tabulation(ctx, what, el, fs, cell, verts, r):
    """tabulate_basis takes the value of the piece the point lies in."""
    t = len(verts[0])
    pieces = [fem.read(f) for f in fs]
    pts = [point_in(r, cell, verts) for _ in range(3)]
    tab = el.tabulate_basis(tuple(O.spt(p) for p in pts), "xyz,xyz")
    for p, row in zip(pts, tab):
        row = flat_row(row)
        d = len(row) // len(fs)
        for k, q in enumerate(pieces):
            got = row[k * d : (k + 1) * d]
            want = [fem.flatv(v) for v in fem.values_at(q, p, t)]
            ctx.expect(
                any(all(O.close(a, b) for a, b in zip(got, w)) for w in want), "tabulate", f"tabulate:{what}",
                f"function {k} at {p}: {got}, pieces say {want}", key=f"{what}|tabulate",
            )  # fmt: skip


def flat_row(row):
    return [O.num(c) for i in row for c in (i if isinstance(i, (tuple, list)) or hasattr(i, "__len__") else (i,))]


def macro(ctx, cell, name, order, cont, seed):
    r = random.Random(seed)
    what = f"{cell} {name} {order}"
    el = element(cell, name, order)
    fs = el.get_basis_functions()
    verts = [tuple(map(Fraction, v)) for v in O.VERTS[cell]]
    cover(ctx, what, cell, verts, fs, r)
    continuity(ctx, what, cont, fs, r)
    tabulation(ctx, what, el, fs, cell, verts, r)
    polyset = el.get_polynomial_basis()
    cover(ctx, f"{what} polynomials", cell, verts, polyset, r, n=5)
    continuity(ctx, f"{what} polynomials", cont, polyset, r)


def mapped(ctx, cell, name, order, cont, seed):
    """On another cell: by map_to_cell, and created there, where that is offered."""
    from symfem.references import NonDefaultReferenceError

    r = random.Random(seed)
    what = f"{cell} {name} {order}"
    A, c, verts = O.rand_affine_cell(r, cell)
    el = element(cell, name, order)
    fs = el.get_basis_functions()
    before = [list(f.pieces.keys()) for f in fs]
    done = False
    try:
        gs = el.map_to_cell(tuple(O.spt(v) for v in verts))
    except (NonDefaultReferenceError, NotImplementedError) as e:
        ctx.expect(True, "refused", "", "", key=f"{what}|map_to_cell|{type(e).__name__}")
    else:
        done = True
        # an affine map or constant matrix keeps continuity, but a component by component map not that of the divergence
        cover(ctx, f"mapped {what}", cell, verts, gs, r)
        continuity(ctx, f"mapped {what}", "C0" if cont == "C0 div" else cont, gs, r)
        ctx.expect(
            [list(f.pieces.keys()) for f in fs] == before, "unchanged", f"map_to_cell changes the reference functions:{what}",
            "the pieces of the element's functions moved", key=f"{what}|unchanged",
        )  # fmt: skip
    try:
        el2 = element(cell, name, order, verts)
        hs = el2.get_basis_functions()
    except (NonDefaultReferenceError, NotImplementedError) as e:
        ctx.expect(True, "refused", "", "", key=f"{what}|vertices|{type(e).__name__}")
        return
    cover(ctx, f"created {what}", cell, verts, hs, r)
    continuity(ctx, f"created {what}", cont, hs, r)
    tabulation(ctx, f"created {what}", el2, hs, cell, verts, r)
    if done:
        ctx.sample({"what": what, "verts": [[str(c) for c in v] for v in verts]})


# ---------------------------------------------------------------- dual elements


def dual(ctx, n, name, order, cont, seed):
    r = random.Random(seed)
    el = element(f"dual polygon({n})", name, order)
    what = f"{name} {order}"
    fs = el.get_basis_functions()
    ref = el.reference
    verts = [tuple(O.num(c) for c in v) for v in ref.vertices]
    N = 2 * n
    total = O.F0
    for a, b in zip(verts, verts[1:] + verts[:1]):
        total = O.add(total, O.div(O.add(O.mul(a[0], b[1]), O.mul(O.num(-1), O.mul(a[1], b[0]))), O.num(2)))
    pieces = cover(ctx, what, None, verts, fs, r, total=total)
    ctx.expect(len(pieces) == N, "cover", f"pieces of the barycentric refinement:{what}", f"{len(pieces)}", key=f"{what}|{n}|count")
    ctx.expect(len(fs) == el.space_dim == (1 if order == 0 else n), "dual", f"dimension:{what}", f"{len(fs)}", key=f"{what}|{n}|dim")
    continuity(ctx, what, cont, fs, r)
    ctx.expect(
        type(el).continuity == cont, "declared", f"declared continuity:{what}", f"declares {type(el).continuity}, the functions are {cont}",
        key=f"{what}|declared",
    )  # fmt: skip
    # tabulation agrees with the pieces
    table = [fem.read(f) for f in fs]
    pts = [poly_point(r, verts) for _ in range(2)]
    if n in (3, 4, 6):
        p0 = (Fraction(1, 7), Fraction(1, 11))
        tab = el.tabulate_basis((O.spt(p0),), "xyz,xyz")
        row = flat_row(tab[0])
        d = len(row) // len(fs)
        for k, q in enumerate(table):
            got = row[k * d : (k + 1) * d]
            want = [fem.flatv(v) for v in fem.values_at(q, p0, 2)]
            ctx.expect(
                any(all(O.close(a, b) for a, b in zip(got, w)) for w in want), "tabulate", f"tabulate:{what}",
                f"{got} pieces say {want}", key=f"{what}|{n}|tabulate",
            )  # fmt: skip
    definition(ctx, el, name, order, n, verts, table, pts)


def definition(ctx, el, name, order, n, verts, table, pts):
    """The values and fluxes which define the barycentric dual spaces."""
    what = f"{name} {order}"
    N = 2 * n

    def piece_with(q, a, b):
        for vs, comps in q:
            if any(same_pt(v, a) for v in vs) and any(same_pt(v, b) for v in vs):
                yield vs, comps

    if name == "dual polynomial":
        # together the functions are 1
        for p in pts + [verts[0], verts[1]]:
            got = _sum(fem.values_at(q, p, 2)[0] for q in table)
            ctx.expect(O.close(got, O.num(1)), "dual", f"partition of unity:{what}", f"{got} at {p}", key=f"{what}|{n}|unity")
        if order == 1:
            for j, q in enumerate(table):
                for i, v in enumerate(verts):
                    d = (i - 2 * j) % N
                    want = O.num(1) if d == 0 else Fraction(1, 2) if d in (1, N - 1) else O.F0
                    got = fem.values_at(q, v, 2)
                    ctx.expect(
                        all(O.close(g, want) for g in got), "dual", f"vertex values:{what}", f"{got} for {want}",
                        key=f"{what}|{n}|vertex{min(d, N - d)}",
                    )  # fmt: skip
                got = fem.values_at(q, (O.F0, O.F0), 2)
                ctx.expect(
                    all(O.close(g, Fraction(1, n)) for g in got), "dual", f"value at the centre:{what}", f"{got}", key=f"{what}|{n}|centre"
                )
        return
    # integrals along the outer edges: only at the two edges at the function's vertex, 1/2 each, and the same
    # integral of the divergence (curl) over every triangle
    rot = name.startswith("rotated")
    for j, q in enumerate(table):
        fluxes = []
        for i in range(N):
            a, b = verts[i], verts[(i + 1) % N]
            mid = [O.div(O.add(x, y), O.num(2)) for x, y in zip(a, b)]
            e = O.vsub(b, a)
            d = e if rot else [e[1], O.mul(O.num(-1), e[0])]
            comps = next(c for vs, c in q if any(same_pt(v, a) for v in vs) and any(same_pt(v, b) for v in vs))
            fluxes.append(O.dotp([c.at(mid) for c in fem.flat(comps)], d))
        own = [fluxes[2 * j], fluxes[2 * j - 1]]
        ctx.expect(
            O.close(own[0], own[1]) and O.close(abs(O.tomp(own[0])), O.tomp(Fraction(1, 2))), "dual", f"flux out of the own vertex:{what}",
            f"{own}", key=f"{what}|{n}|own",
        )  # fmt: skip
        rest = [f for i, f in enumerate(fluxes) if i not in (2 * j, (2 * j - 1) % N)]
        ctx.expect(all(O.is_zero(f) for f in rest), "dual", f"flux through other edges:{what}", f"{fluxes}", key=f"{what}|{n}|others")
        net = []
        for vs, comps in q:
            c = fem.flat(comps)
            p = [O.div(_sum(v[k] for v in vs), O.num(3)) for k in range(2)]
            if rot:
                dv = O.add(c[1].diff(0).at(p), O.mul(O.num(-1), c[0].diff(1).at(p)))
            else:
                dv = O.add(c[0].diff(0).at(p), c[1].diff(1).at(p))
            net.append(O.mul(dv, measure("triangle", vs)))
        ctx.expect(
            all(O.close(v, net[0]) for v in net), "dual", f"equal charge on every triangle:{what}", f"{net}", key=f"{what}|{n}|charge",
        )  # fmt: skip
        ctx.expect(O.close(_sum(net), _sum(fluxes)), "dual", f"divergence theorem:{what}", f"{net} {fluxes}", key=f"{what}|{n}|theorem")
