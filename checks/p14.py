"""P14: quadrature rules have their points, weights and exactness; elements built from them use these points."""

import random
from fractions import Fraction
from itertools import product
from math import factorial

from harness import oracle as O
from harness.core import Case

PROPERTY = "P14"
TECHNIQUE = "runtime monitor: exact moment, ordering and refusal oracles on every rule and size; recorded element points against the rule"
RULE = (
    "One case = one rule at one number of points: points and weights are compared with all moments up to the degree of the rule, at "
    "50 digits or exactly, and sizes and names that are not offered must be refused; or one element whose DOFs are evaluations at the "
    "points of a rule, on the reference or a random cell, where the points on every sub-entity must be exactly those of the rule. "
    "Distinct = rule x size x fact, element x variant x order x sub-entity."
)
ASSUMPTIONS = ["degrees of exactness: equispaced 1, Lobatto 2n-3, Radau 2n-2, Legendre 2n-1"]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 200}
FLOOR = 600

RULES = {
    "equispaced": (lambda n: 1, (True, True), 2),
    "lobatto": (lambda n: 2 * n - 3, (True, True), 2),
    "gll": (lambda n: 2 * n - 3, (True, True), 2),
    "radau": (lambda n: 2 * n - 2, (True, False), 2),
    "legendre": (lambda n: 2 * n - 1, (False, False), 1),
}
# the sizes there are
OFFERED = {"equispaced": range(2, 10**6), "lobatto": range(2, 8), "gll": range(2, 8), "radau": range(2, 4), "legendre": range(1, 4)}

POINT_VARIANTS = ["equispaced", "gll", "radau"]
# cell, names, variants, orders at quick, at thorough
ELEMENTS = [
    ("interval", "P", POINT_VARIANTS, 5, 6),
    ("triangle", "P", ["equispaced"], 5, 7),
    ("tetrahedron", "P", ["equispaced"], 4, 6),
    ("quadrilateral", "Q", POINT_VARIANTS, 3, 5),
    ("hexahedron", "Q", POINT_VARIANTS, 2, 3),
    ("prism", "P", POINT_VARIANTS, 3, 4),
    ("pyramid", "P", POINT_VARIANTS, 3, 4),
    ("triangle", "CR", POINT_VARIANTS, 3, 5),
    ("tetrahedron", "CR", POINT_VARIANTS, 1, 1),
]


# orders and the degrees to which their weighted point evaluations integrate (m + m' - 2 in the paper)
KMV = {"triangle": {1: 1, 2: 3, 3: 5}, "tetrahedron": {1: 1, 2: 4}}


def cases(tier, seed):
    rng = random.Random(f"p14/{seed}")
    out = []

    def add(name, fn, args, cost):
        out.append(Case(name, fn, [*args, rng.randint(0, 10**9)], cost))

    top = 24 if tier == "quick" else 80
    for rule in RULES:
        for n in range(-3, top):
            add(f"rule/{rule}/{n}", "rule", [rule, n], 0.2)
    add("names", "names", [], 0.2)
    for cell, name, variants, quick, thorough in ELEMENTS:
        for v in variants:
            for k in range(1, (quick if tier == "quick" else thorough) + 1):
                if v != "equispaced" and (k + (O.TDIM[cell] if name == "CR" else 1)) not in OFFERED[v]:
                    add(f"too big/{cell}/{name}/{v}/{k}", "toobig", [cell, name, v, k], 0.5)
                    continue
                add(f"points/{cell}/{name}/{v}/{k}", "points", [cell, name, v, k, False], 1)
                if cell in ("interval", "triangle", "tetrahedron"):
                    add(f"points/{cell}/{name}/{v}/{k}/other", "points", [cell, name, v, k, True], 1)
    for cell, orders in KMV.items():
        for k in orders:
            add(f"KMV/{cell}/{k}", "lumped", [cell, k], 1)
    for k in range(6 if tier == "quick" else 30):
        add(f"transition/{k}", "transition", [], 3)
    return out


def plain(v):
    return O.num(v)


def rule(ctx, name, n, seed):
    from symfem import quadrature

    direct = quadrature.lobatto if name == "gll" else getattr(quadrature, name)
    degree, (left, right), low = RULES[name]
    try:
        pts, wts = quadrature.get_quadrature(name, n)
    except Exception as e:
        got = None
        what = type(e).__name__
    else:
        got = pts, wts
        what = f"{str(pts)[:200]}"
    if n not in OFFERED[name]:
        # sizes below the least have no such rule; larger ones may be added, then they have to be right
        if n < low:
            ctx.expect(got is None, "refused", f"size not refused:{name}", f"{n} points: {what}", key=f"{name}|{n}|refused")
            return
        if got is None:
            ctx.expect(True, "refused", "", "", key=f"{name}|{n}|refused")
            return
    elif not ctx.expect(got is not None, "offered", f"offered:{name}", f"{n} points refused: {what}", key=f"{name}|{n}|offered"):
        return
    try:
        p = [plain(i) for i in pts]
        w = [plain(i) for i in wts]
    except Exception:
        ctx.violate(f"not numbers:{name}", f"{n} points: {what} {wts}")
        return
    key = f"{name}|{n}"
    ctx.expect(len(p) == n == len(w), "size", f"size:{name}", f"{len(p)} points, {len(w)} weights for {n}", key=f"{key}|size")
    f = [O.tomp(i) for i in p]
    ctx.expect(all(a < b for a, b in zip(f, f[1:])), "increasing", f"increasing:{name}", f"{n}: {pts}", key=f"{key}|increasing")
    ctx.expect(all(0 <= a <= 1 for a in f), "range", f"in [0,1]:{name}", f"{n}: {pts}", key=f"{key}|range")
    if p:
        ctx.expect(O.close(p[0], O.F0) == left, "ends", f"left end:{name}", f"{n}: {pts[0]}", key=f"{key}|left")
        ctx.expect(O.close(p[-1], O.F1) == right, "ends", f"right end:{name}", f"{n}: {pts[-1]}", key=f"{key}|right")
    ctx.expect(all(O.tomp(i) > 0 for i in w), "positive", f"positive weights:{name}", f"{n}: {wts}", key=f"{key}|positive")
    for k in range(degree(n) + 1):
        s = O.F0
        for a, b in zip(p, w):
            s = O.add(s, O.mul(b, O.power(a, k) if k else O.F1))
        ctx.expect(O.close(s, Fraction(1, k + 1)), "moment", f"exactness:{name}", f"{n} points, degree {k}: {s}", key=f"{key}|{k}")
    # the two ways to ask agree, and an answer can be changed without changing the next
    keep = list(pts), list(wts)
    if isinstance(pts, list):
        pts[0] = 17
        wts.append(1)
    again = direct(n)
    ctx.expect(
        [list(i) for i in again] == [list(i) for i in keep], "again", f"asking twice:{name}", f"{n}: {again} after {keep}", key=f"{key}|again",
    )  # fmt: skip
    if name == "equispaced":
        ctx.expect(p == [Fraction(i, n - 1) for i in range(n)], "equispaced", "equispaced points", f"{n}: {keep[0]}", key=f"{key}|values")


def lumped(ctx, cell, k, seed):
    """The weighted point evaluations of the mass-lumping elements are a quadrature rule (that is what they are for)."""
    import symfem
    from symfem.functions import ScalarFunction
    from symfem.symbols import x

    el = symfem.create_element(cell, "KMV", k)
    t = O.TDIM[cell]
    ents = el.dof_entities()
    for e in product(range(KMV[cell][k] + 1), repeat=t):
        if sum(e) > KMV[cell][k]:
            continue
        f = 1
        want = Fraction(1)
        for i, j in enumerate(e):
            f = f * x[i] ** j
            want *= factorial(j)
        want /= factorial(sum(e) + t)
        vals = [O.num(d.eval(ScalarFunction(f)).as_sympy()) for d in el.dofs]
        s = O.F0
        for v in vals:
            s = O.add(s, v)
        key = f"KMV|{cell}|{k}|{e}"
        ctx.expect(O.close(s, want), "lumped", f"quadrature:KMV:{cell}:{k}", f"the DOFs of {f} sum to {s}, its integral is {want}", key=key)
        if sum(e) == 0:
            weights = {}
            for v, w in zip(ents, vals):
                weights.setdefault(v[0], []).append(w)
            for d, ws in weights.items():
                ctx.expect(
                    all(O.close(w, ws[0]) and O.tomp(w) > 0 for w in ws), "positive", f"weights:KMV:{cell}:{k}",
                    f"the weights on entities of dimension {d} are {ws}", key=f"{key}|{d}",
                )  # fmt: skip


def names(ctx, seed):
    from symfem import quadrature

    for bad in ("", "gauss", "Lobatto", "gl", "equi", "legendre ", None, 3):
        try:
            got = quadrature.get_quadrature(bad, 3)
        except ValueError:
            ctx.expect(True, "refused", "", "", key=f"name|{bad}")
        else:
            ctx.violate("unknown rule not refused", f"{bad!r}: {got}")


def sub_verts(cell, verts):
    """Every sub-entity: dimension, number, vertices."""
    for d in range(O.TDIM[cell] + 1):
        for n, e in enumerate(O.sub_entities(cell, d)):
            yield d, n, [verts[i] for i in e]


def local_points(kind, order, pts):
    """The interior points of an entity in its local coordinates."""
    d = O.TDIM[kind]
    out = set()
    for i in product(range(1, order), repeat=d):
        if kind in ("triangle", "tetrahedron") and sum(i) >= order:
            continue
        if kind == "prism" and i[0] + i[1] >= order:
            continue
        if kind == "pyramid" and max(i[0], i[1]) + i[2] >= order:
            continue
        out.add(tuple(pts[j] for j in i))
    return list(out)


def match(ctx, what, want, got, key):
    """The same points, each once."""
    left = list(got)
    missing = []
    for p in want:
        for q in left:
            if all(O.close(a, b) for a, b in zip(p, q)):
                left.remove(q)
                break
        else:
            missing.append(p)
    ctx.expect(not missing and not left, "points", f"points:{what}", f"missing {missing[:2]}, extra {left[:2]}", key=key)


def geometry(r, cell, other):
    import symfem  # noqa: F401

    if not other:
        return [tuple(map(Fraction, v)) for v in O.VERTS[cell]], {}
    verts = [tuple(v) for v in O.rand_affine_cell(r, cell)[2]]
    return verts, {"vertices": tuple(O.spt(v) for v in verts)}


def points(ctx, cell, name, variant, k, other, seed):
    import symfem
    from symfem import quadrature
    from symfem.functionals import PointEvaluation
    from symfem.references import NonDefaultReferenceError

    r = random.Random(seed)
    verts, kw = geometry(r, cell, other)
    what = f"{cell} {name} {variant}"
    key = f"{what}|{k}|{other}"
    try:
        el = symfem.create_element(cell, name, k, variant=variant, **kw)
    except (AssertionError, NonDefaultReferenceError, NotImplementedError) as e:
        ctx.seen("refused", f"{key}|{type(e).__name__}")
        return
    ctx.expect(
        all(type(d) is PointEvaluation for d in el.dofs), "kind", f"point evaluations:{what}", f"{[type(d).__name__ for d in el.dofs[:3]]}",
        key=f"{key}|kind",
    )  # fmt: skip
    by = {}
    for d in el.dofs:
        by.setdefault(tuple(d.entity), []).append(tuple(plain(c) for c in d.point))
    t = O.TDIM[cell]
    rule_pts = lambda n: [plain(i) for i in quadrature.get_quadrature(variant, n)[0]]  # noqa: E731
    for d, n, vs in sub_verts(cell, verts):
        kind = O.entity_type(d, len(vs)) if d else "point"
        if name == "CR":
            want = cr_points(cell, kind, d, t, k, vs, rule_pts)
        elif d == 0:
            want = [vs[0]]
        else:
            o, axes = O.frame(cell if d == t else kind, vs)
            want = [tuple(O.affine_point(o, axes, q)) for q in local_points(cell if d == t else kind, k, rule_pts(k + 1))]
        match(ctx, what, want, by.get((d, n), []), f"{key}|{d}")
    if k >= 1 and name != "CR" and cell != "pyramid":
        ctx.expect(len(el.dofs) == el.space_dim, "count", f"count:{what}", f"{len(el.dofs)}", key=f"{key}|count")


def cr_points(cell, kind, d, t, k, vs, rule_pts):
    if d not in (t - 1, t):
        return []
    o, axes = O.frame(cell if d == t else kind, vs)
    out = []
    if d == t - 1:
        pts = rule_pts(k + t)
        ids = [i for i in product(range(1, k + 1), repeat=d) if sum(i) < k + t - 1]
    else:
        pts = rule_pts(k + t - 1)
        ids = [i for i in product(range(1, k), repeat=t) if sum(i) < k]
    for i in ids:
        out.append(tuple(O.affine_point(o, axes, [pts[j] for j in i])))
    return out


def toobig(ctx, cell, name, variant, k, seed):
    """An order whose rule does not exist is refused."""
    import symfem

    try:
        el = symfem.create_element(cell, name, k, variant=variant)
    except (NotImplementedError, ValueError, AssertionError):
        ctx.expect(True, "refused", "", "", key=f"too big|{cell}|{name}|{variant}|{k}")
    else:
        pts = [tuple(plain(c) for c in d.point) for d in el.dofs]
        ctx.violate(f"no rule but an element:{cell} {name} {variant}", f"order {k}: points {pts[:4]}")


def transition(ctx, seed):
    import symfem
    from symfem import quadrature

    r = random.Random(seed)
    cell = r.choice(["triangle", "triangle", "tetrahedron"])
    k = r.randint(1, 4) if cell == "triangle" else r.randint(1, 3)
    variant = "equispaced"
    eo = [r.randint(1, 4 if cell == "triangle" else 3) for _ in O.sub_entities(cell, 1)]
    kw = {"edge_orders": eo}
    if cell == "tetrahedron":
        kw["face_orders"] = [r.randint(1, 3) for _ in range(4)]
    el = symfem.create_element(cell, "transition", k, variant=variant, **kw)
    verts = [tuple(map(Fraction, v)) for v in O.VERTS[cell]]
    by = {}
    for d in el.dofs:
        by.setdefault(tuple(d.entity), []).append(tuple(plain(c) for c in d.point))
    for d, n, vs in sub_verts(cell, verts):
        if d == 0:
            want = [vs[0]]
        else:
            order = k if d == O.TDIM[cell] else eo[n] if d == 1 else kw["face_orders"][n]
            kind = O.entity_type(d, len(vs))
            pts = [plain(i) for i in quadrature.get_quadrature(variant, order + 1)[0]]
            o, axes = O.frame(kind, vs)
            want = [tuple(O.affine_point(o, axes, q)) for q in local_points(kind, order, pts)]
        match(ctx, f"transition {cell}", want, by.get((d, n), []), f"transition|{cell}|{d}|{len(want)}")
