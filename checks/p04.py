"""P04: elements glue with their declared continuity across every facet."""

import random
from fractions import Fraction

from harness import catalogue, deep, fem
from harness import oracle as O
from harness.core import Case, Skip

PROPERTY = "P04"
TECHNIQUE = "runtime monitor: traces of mapped basis functions observed from both sides of shared facets"
RULE = (
    "One case = one element glued over one or several pairs of local facets (facet a of the first "
    "cell against facet b of the second), both cells being random rational affine images (either "
    "orientation) with the shared vertices in the same relative order. For every basis function the "
    "declared trace is evaluated exactly at random rational points of the facet from both sides: "
    "DOFs of shared sub-entities must agree in order, all others must vanish. "
    "Distinct = element x (facet a, facet b)."
)
ASSUMPTIONS = [
    "consistent numbering = shared vertices appear in the same order in both cells (symfem's low-to-high convention)",
    "traces are compared at random points; polynomials that agree there but differ elsewhere have probability ~0",
]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 500}
FLOOR = 1500


def cases(tier, seed):
    quick = tier == "quick"
    items = catalogue.select(2.5 if quick else 40, pred=lambda c, n, k, o, kind: "dual" not in c)
    items = catalogue.thin(items, 60 if quick else 1200, seed, factor=4 if quick else 8)
    items += catalogue.kept(8 if quick else 40, items)
    rng = random.Random(f"p04/{seed}")
    out = []
    for lb, cell, name, kw, order, cost, dim in items:
        nf = len(O.sub_entities(cell, O.TDIM[cell] - 1))
        allp = [(a, b) for a in range(nf) for b in range(nf) if ftype(cell, a) == ftype(cell, b)]
        k = len(allp) if cost < 0.05 else (3 if quick else 12)
        if quick and dim > 12:
            k = min(k, 4)
        if quick and cost > 2.5:
            k = 1
        pairs = rng.sample(allp, min(k, len(allp)))
        out.append(Case(f"glue/{lb}", "glue", [cell, name, kw, order, pairs, rng.randint(0, 10**9)], cost * len(pairs), 4))
    for cell, name, kw, order in deep.orders(2.5 if quick else 40, 1 if quick else 3):
        if name in MIXED:
            continue
        lb = catalogue.label(cell, name, kw, order)
        out.append(Case(f"deep/{lb}", "high", [cell, name, kw, order, 56 if quick else 150, rng.randint(0, 10**9)], 3, 5))
    return out


def high(ctx, cell, name, kw, order, top, gseed):
    """Orders too high for symfem's inversion: its DOFs and polynomials, inverted and mapped by the oracle."""
    import symfem

    from checks.p05 import Affine

    tag = catalogue.label(cell, name, kw, order)
    el = deep.element(cell, name, kw, order, top)
    cont = el.continuity.replace("{order}", str(el.order))
    if cont not in ("C0", "H(div)", "H(curl)", "inner H(div)", "inner H(curl)"):
        raise Skip(f"continuity {cont}")
    if any(d.mapping is None for d in el.dofs):
        raise Skip("no mapping")
    low, lowkw = min(
        ((o, k) for _, c, nm, k, o, *_ in catalogue.select(10**9) if (c, nm) == (cell, name) and set(k) <= {"variant"}), key=lambda x: x[0]
    )
    r = random.Random(gseed)
    try:
        box = name in RECTANGULAR
        v0 = (rectangle_map(r, cell) if box else O.rand_affine_cell(r, cell))[2]
        symfem.create_element(cell, name, low, **lowkw).map_to_cell(tuple(O.spt(v) for v in v0))
    except NotImplementedError as e:
        raise Skip(f"mapping not implemented: {type(e).__name__}")
    pb = deep.polys(el)
    try:
        inv = deep.inverse(deep.matrix(el, pb))
    except fem.OutOfModel as e:
        raise Skip(f"model: {e}")
    if inv is None:
        raise Skip("singular")  # P01 decides
    coef = deep.transposed(inv)
    t = O.TDIM[cell]
    ed = {(d, n): el.entity_dofs(d, n) for d in range(t + 1) for n in range(len(O.sub_entities(cell, d)))}
    nf = len(O.sub_entities(cell, t - 1))
    pairs = [(a, b) for a in range(nf) for b in range(nf) if ftype(cell, a) == ftype(cell, b)]
    for a, b in r.sample(pairs, 2):
        A, c, v1 = rectangle_map(r, cell) if box else O.rand_affine_cell(r, cell)
        v2 = neighbour(r, cell, v1, a, b, box)
        e1, e2 = entities_of_facet(cell, a), entities_of_facet(cell, b)
        match = []
        for k in e1:
            d1, d2 = ed[(k[0], e1[k])], ed[(k[0], e2[k])]
            if not ctx.expect(
                len(d1) == len(d2), "dof-count", f"dof-count:{tag}",
                f"sub-entities {(k[0], e1[k])} and {(k[0], e2[k])} have {len(d1)} and {len(d2)} DOFs",
            ):  # fmt: skip
                return
            match += list(zip(d1, d2))
        fv = [v1[i] for i in O.sub_entities(cell, t - 1)[a]]
        fc = fem.Cell(O.entity_type(t - 1, len(fv)), fv)
        p = O.affine_point(fc.o, fc.axes, O.rand_point_in(r, fc.name, 12) if t > 1 else [])
        T = []
        for vs in (v1, v2):
            o, axes = O.frame(cell, vs)
            F = Affine(O.transpose(axes), o)
            q = O.matvec(F.inv, O.vsub(p, F.c))
            vals = [deep.value(f, q, t) for f in pb]
            T.append([trace_of(cont, F.push(d.mapping, deep.combine(c, vals)), fv, t) for d, c in zip(el.dofs, coef)])
        if not judge(ctx, tag, a, b, match, {i for i, _ in match}, {j for _, j in match}, *T, el):
            return


def worker_init():
    fem.install_recorder()


def ftype(cell, f):
    return len(O.sub_entities(cell, O.TDIM[cell] - 1)[f])


# what the families are named after: a weaker declaration is wrong too
DECLARED = {
    **dict.fromkeys(["P", "vP", "Q", "vQ", "Lagrange", "serendipity", "TNT", "bubble", "Bernstein"], "C0"),
    **dict.fromkeys(["Nedelec", "Nedelec1", "Nedelec2", "Qcurl", "Scurl", "TNTcurl", "TScurl"], "H(curl)"),
    **dict.fromkeys(["ABF", "AC", "BDFM", "BDM", "Qdiv", "RT", "Sdiv", "TNTdiv", "TSdiv"], "H(div)"),
    **dict.fromkeys(["HHJ"], "inner H(div)"),
    **dict.fromkeys(["Regge"], "inner H(curl)"),
}
# elements that declare less than they are known (and needed) to satisfy
STRONGER = {"HCT": "C1", "rHCT": "C1", "BFS": "C1"}
MIXED = {"transition"}  # facets of one cell may have different orders: only equal ones are glued
RECTANGULAR = {"BFS", "HZ"}  # elements of the literature defined on axis-parallel rectangles


def rectangle_map(r, cell):
    """Random box image of the cell (axes permuted, scaled and possibly reflected)."""
    t = O.TDIM[cell]
    perm = list(range(t))
    r.shuffle(perm)
    A = [[O.F0] * t for _ in range(t)]
    for i, j in enumerate(perm):
        A[i][j] = Fraction(r.choice([-1, 1]) * r.randint(1, 9), r.randint(1, 6))
    c = [O.rand_frac(r, -3, 3) for _ in range(t)]
    return A, c, O.affine_vertices(cell, A, c)


def neighbour(r, cell, verts, a, b, box=False):
    """A second affine cell whose facet b is facet a of the first, vertices in the same order."""
    t = O.TDIM[cell]
    fa = O.sub_entities(cell, t - 1)[a]
    fb = O.sub_entities(cell, t - 1)[b]
    V = O.VERTS[cell]
    # affine map A v + c with A, c determined by facet b plus one more random image
    off = next(i for i in range(len(V)) if i not in fb)
    base = [fb[0]] + pick(V, fb, t - 1) + [off]
    src = [V[i] for i in base]
    while True:
        dst = [verts[fa[fb.index(i)]] for i in base[:-1]]
        extra = [O.rand_frac(r, -3, 3) for _ in range(t)]
        if box:  # the new edge is perpendicular to the facet
            i = next(j for j in range(t) if all(verts[k][j] == dst[0][j] for k in fa))
            at = dst[base.index(nearest(cell, off, base[:-1]))]
            extra = [at[j] if j != i else extra[j] for j in range(t)]
        dst = dst + [tuple(extra)]
        S = [O.vsub(s, src[0]) for s in src[1:]]
        D = [O.vsub(d, dst[0]) for d in dst[1:]]
        if abs(O.det(D)) < Fraction(1, 4):
            continue
        A = O.matmul(O.transpose(D), O.matinv(O.transpose(S)))
        c = O.vsub(dst[0], O.matvec(A, src[0]))
        return O.affine_vertices(cell, A, c)


def nearest(cell, off, others):
    """The vertex among others that shares an edge with off."""
    edges = [set(e) for e in O.sub_entities(cell, 1)]
    return next(i for i in others if {i, off} in edges)


def pick(V, fb, n):
    """Vertices of the facet that (with its first) span it."""
    out = []
    rows = []
    for i in fb[1:]:
        cand = rows + [O.vsub(V[i], V[fb[0]])]
        if O.rref_rank(cand) == len(cand):
            rows = cand
            out.append(i)
        if len(out) == n:
            break
    return out


def entities_of_facet(cell, f):
    """[(dim, number)] of the facet's closure, as (dim, vertices) in facet-local numbering."""
    t = O.TDIM[cell]
    fv = O.sub_entities(cell, t - 1)[f]
    out = {}
    for d in range(t):
        for n, e in enumerate(O.sub_entities(cell, d)):
            if set(e) <= set(fv):
                out[(d, tuple(fv.index(i) for i in e))] = n
    return out


def tangents(pts):
    return [O.vsub(p, pts[0]) for p in pts[1:]]


def trace(cont, comps, p, fverts, t):
    """The declared trace at p of a function given by its components, as a list of numbers."""
    if cont.startswith("C"):
        vals = fem.flatv(fem.value(comps, p))
        level = fem.flat(comps)
        for _ in range(int(cont[1:])):
            level = [c.diff(i) for c in level for i in range(t)]
            vals += [c.at(p) for c in level]
        return vals
    return trace_of(cont, fem.value(comps, p), fverts, t)


def trace_of(cont, v, fverts, t):
    """The declared trace (without derivatives) of a value."""
    tang = tangents(fverts)
    if t == 1:
        nrm = [O.F1]
    elif t == 2:
        nrm = [-tang[0][1], tang[0][0]]
    else:
        nrm = O.cross(tang[0], tang[1])
    if cont == "C0":
        return fem.flatv(v)
    if cont == "H(div)":
        return [O.dotp(v, nrm)]
    if cont == "H(curl)":
        return [O.dotp(v, a) for a in tang]
    if cont == "inner H(div)":
        return [O.dotp(nrm, [O.dotp(r, nrm) for r in v])]
    if cont == "inner H(curl)":
        return [O.dotp(a, [O.dotp(r, b) for r in v]) for a in tang for b in tang]
    raise Skip(f"continuity {cont}")


def integral_nn(fn, fverts):
    """Integral of n^T S n over the edge."""
    d = O.vsub(fverts[1], fverts[0])
    n = [-d[1], d[0]]
    dom = fem.Cell("interval", fverts)

    def integrand(comps, phys, loc):
        M = fem._compose(comps, phys)
        return fem._lin([fem._lin(r, n) for r in M], n)

    return [fem.integrate_over(fn, dom, 2, integrand)]


def glue(ctx, cell, name, kw, order, pairs, gseed):
    import symfem

    el = symfem.create_element(cell, name, order, **kw)
    tag = catalogue.label(cell, name, kw, order)
    cont = STRONGER.get(name, el.continuity)
    if name in DECLARED:
        ctx.expect(
            el.continuity == DECLARED[name] or (order == 0 or kw.get("variant") == "legendre"),
            "declared", f"declared:{tag}", f"continuity is declared as {el.continuity}, {DECLARED[name]} expected",
        )  # fmt: skip
    if "{order}" in cont:
        cont = cont.replace("{order}", str(el.order))
    if cont == "L2":
        ctx.seen("declares no continuity", tag)
        raise Skip("L2")
    r = random.Random(gseed)
    t = O.TDIM[cell]
    ed = {(d, n): el.entity_dofs(d, n) for d in range(t + 1) for n in range(len(O.sub_entities(cell, d)))}
    for a, b in pairs:
        box = name in RECTANGULAR
        A, c, v1 = rectangle_map(r, cell) if box else O.rand_affine_cell(r, cell)
        v2 = neighbour(r, cell, v1, a, b, box)
        try:
            f1 = [fem.read(f) for f in el.map_to_cell(tuple(O.spt(v) for v in v1))]
            f2 = [fem.read(f) for f in el.map_to_cell(tuple(O.spt(v) for v in v2))]
        except NotImplementedError as e:
            ctx.seen("mapping refused", f"{tag}|{type(e).__name__}")
            raise Skip(f"mapping not implemented: {type(e).__name__}")
        e1, e2 = entities_of_facet(cell, a), entities_of_facet(cell, b)
        ctx_ok = set(e1) == set(e2)
        assert ctx_ok, (cell, a, b)
        match = []
        for k in e1:
            d1, d2 = ed[(k[0], e1[k])], ed[(k[0], e2[k])]
            if name in MIXED and len(d1) != len(d2):
                match = None
                break
            if not ctx.expect(
                len(d1) == len(d2),
                "dof-count",
                f"dof-count:{tag}",
                f"sub-entities {(k[0], e1[k])} and {(k[0], e2[k])} have {len(d1)} and {len(d2)} DOFs",
            ):
                return
            match += list(zip(d1, d2))
        if match is None:
            ctx.seen("facets of different kinds not glued", f"{tag}|{a}|{b}")
            continue
        fv = [v1[i] for i in O.sub_entities(cell, t - 1)[a]]
        m1, m2 = {i for i, _ in match}, {j for _, j in match}
        if cont == "integral inner H(div)":
            T1 = [integral_nn(f, fv) for f in f1]
            T2 = [integral_nn(f, fv) for f in f2]
            judge(ctx, tag, a, b, match, m1, m2, T1, T2, el)
            continue
        fc = fem.Cell(O.entity_type(t - 1, len(fv)), fv)
        for _ in range(2 if len(f1) > 30 else 3):
            p = O.affine_point(fc.o, fc.axes, O.rand_point_in(r, fc.name, 24) if t > 1 else [])
            try:
                T1 = [tr(cont, f, p, fv, t) for f in f1]
                T2 = [tr(cont, f, p, fv, t) for f in f2]
            except fem.OutOfModel as e:
                ctx.skip(str(e))
                continue
            if not judge(ctx, tag, a, b, match, m1, m2, T1, T2, el):
                return
    ctx.sample({"config": tag, "continuity": cont, "pairs": pairs, "matched": len(match or [])})


def tr(cont, f, p, fv, t):
    """Trace of a (piecewise) function: from every piece that contains the point; they must agree."""
    if f[0][0] is None:
        return trace(cont, f[0][1], p, fv, t)
    vals = [trace(cont, c, p, fv, t) for vs, c in f if fem.in_piece(vs, p, t)]
    if not vals:
        raise fem.OutOfModel("no piece contains the point")
    for v in vals[1:]:
        if not fem.same_value(v, vals[0]):
            return [*vals[0], "pieces disagree"]
    return vals[0]


def judge(ctx, tag, a, b, match, m1, m2, T1, T2, el):
    def zero(v):
        return all(not isinstance(x, str) and O.is_zero(x) for x in v)

    def same(u, v):
        return len(u) == len(v) and all(not isinstance(x, str) and not isinstance(y, str) and O.close(x, y) for x, y in zip(u, v))

    ok = True
    for i, j in match:
        ok &= ctx.expect(
            same(T1[i], T2[j]), "jump", f"jump:{tag}",
            f"facets {a}|{b}: DOF {i} ({el.dof_entities()[i]}) and DOF {j} of the neighbour disagree on the facet",
            got=T1[i], want=T2[j], key=f"{tag}|{a}|{b}",
        )  # fmt: skip
        if not ok:
            return False
    for T, mm, side in ((T1, m1, a), (T2, m2, b)):
        for i in range(len(T)):
            if i not in mm:
                ok &= ctx.expect(
                    zero(T[i]), "zero-trace", f"trace:{tag}",
                    f"DOF {i} ({el.dof_entities()[i]}) is not on facet {side} but has a trace there",
                    got=T[i], key=f"{tag}|{side}",
                )  # fmt: skip
                if not ok:
                    return False
    return ok
