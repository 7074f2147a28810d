"""P03: element spaces and declared degrees are the ones the element names."""

import random
from fractions import Fraction

from harness import catalogue, deep, fem
from harness import oracle as O
from harness import spaces as S
from harness.core import Case, Skip

PROPERTY = "P03"
TECHNIQUE = "runtime monitor: observed spans and declared degrees checked against independently built spaces"
RULE = (
    "One case = one element configuration (its observed span against the literature space built by "
    "the oracle, and its declared degrees, dimensions and shapes against the truth computed from "
    "that span), also on random affine cells, or one discrete exact sequence (grad/curl/div between "
    "observed spans, image and kernel dimensions). Distinct = configuration x fact decided."
)
ASSUMPTIONS = [
    "the literature definitions in harness/spaces.py",
    "ranks are computed modulo 2^61-1 (error probability below 2^-50 per comparison)",
    "spans are read from get_polynomial_basis (P01 decides that the basis functions span it) and, for cheap elements, also from get_basis_functions",
]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 500}
FLOOR = 800

SEQ = {
    "first kind": ("P", "Nedelec1", "RT", "dPs", (0, 0, 0, -1), {"triangle": 3, "tetrahedron": 2}),
    "second kind": ("P", "Nedelec2", "BDM", "dPs", (0, -1, -2, -3), {"triangle": 4, "tetrahedron": 4}),
    "tensor": ("Q", "Qcurl", "Qdiv", "dQ", (0, 0, 0, -1), {"quadrilateral": 3, "hexahedron": 2}),
    "serendipity": ("serendipity", "Scurl", "Sdiv", "dPc", (0, -1, -2, -3), {"quadrilateral": 4, "hexahedron": 4}),
    "trimmed": ("serendipity", "TScurl", "TSdiv", "dPc", (0, 0, 0, -1), {"quadrilateral": 4, "hexahedron": 2}),
    "TNT": ("TNT", "TNTcurl", "TNTdiv", "dQ", (0, 0, 0, 0), {"quadrilateral": 3, "hexahedron": 1}),
}


def cases(tier, seed):
    quick = tier == "quick"
    rng = random.Random(f"p03/{seed}")
    items = catalogue.select(8 if quick else 200, pred=lambda c, n, k, o, kind: "dual" not in c and "macro" not in kind)
    items = catalogue.thin(items, 70 if quick else 1200, seed, factor=0.7)
    items += [i for i in catalogue.kept(7 if quick else 60, items) if "macro" not in i[0]]
    out = [Case(f"space/{lb}", "space", [cell, name, kw, order, None], cost=cost, prio=4) for lb, cell, name, kw, order, cost, dim in items]
    nd = [i for i in items if i[5] < (0.4 if quick else 4) and i[1] not in ("prism", "pyramid")]
    rng.shuffle(nd)
    for lb, cell, name, kw, order, cost, dim in nd[: 60 if quick else 300]:
        out.append(Case(f"cell/{lb}", "space", [cell, name, kw, order, rng.randint(0, 10**9)], cost * 3, 5))
    have = {i[0] for i in items}
    for cell, name, kw, order in deep.orders(0 if quick else 60, 1 if quick else 3):
        lb = catalogue.label(cell, name, kw, order)
        if lb not in have and name not in deep.SLOW:
            out.append(Case(f"deep/{lb}", "high", [cell, name, kw, order, 130 if quick else 300], cost=2, prio=5))
    for sname, (*_, cells) in SEQ.items():
        for cell, top in cells.items():
            for k in range(1, top + 1 + (0 if quick else 1)):
                out.append(Case(f"sequence/{sname}/{cell}/{k}", "sequence", [sname, cell, k], cost=1.5 * k, prio=4))
    for k in (1, 2):
        out.append(Case(f"sequence/prism/{k}", "prism_sequence", [k], cost=2, prio=4))
    for k in range(1, 8):
        out.append(Case(f"direct serendipity/{k}", "direct", [k], cost=0.3, prio=3))
    return out


def high(ctx, cell, name, kw, order, top):
    """Orders for which the basis functions would take too long: the polynomial set only."""
    el = deep.element(cell, name, kw, order, top)
    judge(ctx, el, catalogue.label(cell, name, kw, order), cell, name, kw, order)


def direct(ctx, k):
    """Direct serendipity: P_k plus two functions (k >= 2), polynomial of degree k on every edge, bubbles inside."""
    import symfem

    el = symfem.create_element("quadrilateral", "direct serendipity", k)
    tag = f"quadrilateral/direct serendipity/{k}"
    basis = [fem.read(f)[0][1] for f in el.get_basis_functions()]
    want = 4 if k == 1 else (k + 1) * (k + 2) // 2 + 2
    ctx.expect(len(basis) == want, "dimension", f"dimension:{tag}", "wrong dimension", got=len(basis), want=want)
    r = ctx.rng
    pts = [[Fraction(r.randint(1, 400), 401), Fraction(r.randint(1, 400), 401)] for _ in range(len(basis) + want + 12)]
    rows = [[b.at(p) for p in pts] for b in basis]
    polys = [[p([*x, Fraction(0)]) for x in pts] for p in S.P(2, k)]
    dim = O.rref_rank(rows)
    ctx.expect(dim == len(basis), "independent", f"independent:{tag}", "basis functions are linearly dependent", got=dim)
    both = O.rref_rank(rows + polys)
    ctx.expect(both == dim, "complete", f"complete:{tag}", f"the space does not contain P_{k}", got=both, want=dim)
    for i, b in enumerate(basis):
        for en, (v, w) in enumerate(O.EDGES["quadrilateral"]):
            a, c = O.VERTS["quadrilateral"][v], O.VERTS["quadrilateral"][w]
            vals = []
            for j in range(k + 4):
                s = Fraction(j, k + 3)
                vals.append(b.at([Fraction(x) + s * (y - x) for x, y in zip(a, c)]))
            for _ in range(k + 1):  # differences of order k + 1 vanish for polynomials of degree k
                vals = [q - p for p, q in zip(vals, vals[1:])]
            ctx.expect(
                all(x == 0 for x in vals), "edge degree", f"edge:{tag}", f"function {i} on edge {en} is no polynomial of degree {k}",
                key=f"{tag}|{i}|{en}",
            )  # fmt: skip


def family(name):
    """catalogue names are the first registered names."""
    return name


def observed(el, functions=False):
    """The element's span as nested oracle Polys (raises OutOfModel if not polynomial)."""
    fs = el.get_basis_functions() if functions else el.get_polynomial_basis()
    out = []
    for f in fs:
        ps = fem.read(f)
        if ps[0][0] is not None:
            raise fem.OutOfModel("piecewise")
        out.append(nest(ps[0][1]))
    return out


def nest(c):
    if isinstance(c, list):
        return [nest(i) for i in c]
    return c.P()


def truth(cell, shape, sym, span, kind):
    """(subdegree, superdegree) of a span relative to P_k or the Lagrange spaces."""

    def full(k):
        if k < 0:
            return []
        sp = S.P(O.TDIM[cell], k) if kind == "P" else S.lag(cell, k)
        if shape == ():
            return sp
        if len(shape) == 1:
            return S.vec(sp, shape[0])
        return S.symmat(sp, shape[0]) if sym else S.mat(sp, shape[0])

    polys = [p for f in span for p in S.flatten(f)]
    deg = max(p.degree() for p in polys)
    if kind == "P" or cell in ("interval", "triangle", "tetrahedron"):
        sup = deg
    elif cell in ("quadrilateral", "hexahedron"):
        sup = max(p.maxdegree() for p in polys)
    else:
        sup = max(max(e[0] + e[1], e[2]) for p in polys for e in p.c)
    sub = -1
    while sub <= sup and S.contains(span, full(sub + 1)):
        sub += 1
    return sub, sup


def push_span(span, cell, verts, how):
    """Push a span forward to an affine cell."""
    o, axes = O.frame(cell, verts)
    A, b = O.inverse_affine(o, axes)
    t = len(axes)
    inv = []
    for i in range(t):
        p = O.Poly.const(3, b[i])
        for j in range(t):
            p = p + O.Poly.var(3, j) * A[i][j]
        inv.append(p)
    inv += [O.Poly(3)] * (3 - t)
    J = O.transpose(axes)

    def sub(f):
        return [sub(i) for i in f] if isinstance(f, list) else f.compose(inv)

    def mv(M, v):
        out = []
        for r in M:
            s = O.Poly(3)
            for c, p in zip(r, v):
                s = s + p * c
            out.append(s)
        return out

    out = []
    for f in span:
        g = sub(f)
        B = J if "contra" in how else O.transpose(A)
        if how in ("covariant", "contravariant"):
            g = mv(B, g)
        elif how.startswith("double"):
            cols = O.transpose([mv(B, list(c)) for c in zip(*g)])  # B G
            g = [mv(B, r) for r in cols]  # (B G) B^T
        out.append(g)
    return out


def space(ctx, cell, name, kw, order, vseed):
    import symfem

    tag = catalogue.label(cell, name, kw, order)
    verts = vs = None
    if vseed is not None:
        A, b, vs = O.rand_affine_cell(random.Random(vseed), cell)
        verts = tuple(O.spt(v) for v in vs)
        tag += "@cell"
        try:
            el = symfem.create_element(cell, name, order, vertices=verts, **kw)
        except NotImplementedError as e:
            ctx.seen("refused-nondefault", tag)
            raise Skip(f"refused: {type(e).__name__}")
    else:
        el = symfem.create_element(cell, name, order, **kw)
    functions = vseed is None and (catalogue_cost(tag) < 1 or ctx.tier == "thorough")
    judge(ctx, el, tag, cell, name, kw, order, vs, functions)


def judge(ctx, el, tag, cell, name, kw, order, vs=None, functions=False):
    vt = type(el).value_type
    t = O.TDIM[cell]
    if not hasattr(el, "dofs"):
        basis = el.get_basis_functions()
        ctx.expect(el.space_dim == len(basis), "space_dim", f"space_dim:{tag}", key=tag)
        shapes(ctx, el, tag, t, fem.shape(fem.read(basis[0])[0][1]))
        return
    pb = el.get_polynomial_basis()
    shp = fem.shape(fem.read(pb[0])[0][1])
    shapes(ctx, el, tag, t, shp)
    ctx.expect(el.domain_dim == t, "domain_dim", f"domain_dim:{tag}", key=tag)
    if "macro" in vt or "dual" in vt:
        raise Skip("macro element")
    if cell == "pyramid":
        return pyramid(ctx, el, tag, order)
    try:
        span = observed(el)
    except fem.OutOfModel:
        ctx.expect(
            _deg(el, "polynomial_superdegree") in (None, "?"),
            "superdegree",
            f"polynomial_superdegree:{tag}",
            "a space that is not polynomial declares a polynomial superdegree",
            key=tag,
        )
        raise Skip("not polynomial")
    ctx.expect(
        S.dim(span) == el.space_dim == len(pb),
        "space_dim",
        f"space_dim:{tag}",
        "space_dim is not the dimension of the span",
        got=el.space_dim,
        want=S.dim(span),
        key=tag,
    )
    if functions:
        bspan = observed(el, True)
        ctx.expect(S.same_span(span, bspan), "basis-span", f"basis-span:{tag}", key=tag)
    # the named space
    try:
        want = S.named(cell, name, order, {k: v for k, v in kw.items() if k != "variant"})
    except KeyError:
        want = None
        ctx.skip(f"no literature definition for {name}")
    if want is not None:
        if vs is not None:
            how = {"H(div)": "contravariant", "H(curl)": "covariant", "inner H(curl)": "double_covariant",
                   "inner H(div)": "double_contravariant", "integral inner H(div)": "double_contravariant"}.get(
                type(el).continuity, "identity")  # fmt: skip
            if name == "Bell":
                want = S.constrained(S.P(2, 5), lambda f: S._bell(cell, f, vs))
            elif name in ("Bernardi-Raugel", "MTW", "BFS", "nonconforming AW"):
                want = None  # defined through normals: not affine equivalent
            else:
                want = push_span(want, cell, vs, how)
        if want is not None:
            ctx.expect(
                S.same_span(span, want),
                "named-space",
                f"space:{tag}",
                "the span is not the named space",
                dims=(S.dim(span), S.dim(want)),
                key=tag,
            )
            ctx.sample({"config": tag, "dimension": el.space_dim})
    if vs is not None:
        return
    sym = len(shp) == 2 and all(f[i][j].same(f[j][i]) for f in span for i in range(shp[0]) for j in range(i))
    for kind, lo, hi in (("P", "polynomial_subdegree", "polynomial_superdegree"),
                         ("L", "lagrange_subdegree", "lagrange_superdegree")):  # fmt: skip
        sub, sup = truth(cell, shp, sym, span, kind)
        for attr, true in ((lo, sub), (hi, sup)):
            got = _deg(el, attr)
            if got == "?":
                ctx.skip(f"{attr} not implemented")
                continue
            ctx.expect(
                got == true,
                "degree",
                f"{attr}:{tag}",
                f"{attr} is {got}, the truth is {true}",
                key=f"{tag}|{attr}",
            )
    try:
        got = el.maximum_degree
    except NotImplementedError:
        ctx.skip("maximum_degree not implemented")
        return
    sup = truth(cell, shp, sym, span, "L")[1]
    ctx.expect(got == sup, "maximum_degree", f"maximum_degree:{tag}", f"maximum_degree is {got}, the truth is {sup}", key=tag)
    for f, p in list(zip(pb, span))[:12]:
        ps = S.flatten(p)
        want = truth(cell, (), False, ps, "L")[1] if any(q.c for q in ps) else None
        if want is not None:
            got = f.maximum_degree(el.reference)
            ctx.expect(
                got == want,
                "function-degree",
                f"function-degree:{cell}:{len(shp)}",
                f"maximum_degree of {f} is {got}, not {want}",
                key=f"{cell}|{len(shp)}|{want}",
            )


_costs = {}


def catalogue_cost(tag):
    if not _costs:
        for c, n, kw, o, cost, _, _ in catalogue.load():
            _costs[catalogue.label(c, n, kw, o)] = cost
    return _costs.get(tag, 99)


def _deg(el, attr):
    try:
        return getattr(el, attr)
    except NotImplementedError:
        return "?"


def shapes(ctx, el, tag, t, shp):
    n = 1
    for i in shp:
        n *= i
    ctx.expect(el.range_dim == n, "range_dim", f"range_dim:{tag}", f"{el.range_dim} != {n}", key=tag)
    if len(shp) == 2:
        ctx.expect(tuple(el.range_shape) == shp, "range_shape", f"range_shape:{tag}", f"{el.range_shape} != {shp}", key=tag)
    elif el.range_shape is not None:
        ctx.expect(tuple(el.range_shape) in (shp, (n,)), "range_shape", f"range_shape:{tag}", f"{el.range_shape} != {shp}", key=tag)


def pyramid(ctx, el, tag, k):
    r = ctx.rng
    n = el.space_dim
    pts = []
    while len(pts) < 2 * n + 4:
        p = [Fraction(r.randint(1, 60), 61) for _ in range(3)]
        pts.append(p)
    got = [[v for p in pts for v in fem.flatv(fem.value(fem.read(f)[0][1], p))] for f in el.get_polynomial_basis()]
    want = S.pyramid_values(k, pts)
    a, b, c = S.rank(got), S.rank(want), S.rank(got + want)
    ctx.expect(a == b == c == n, "named-space", f"space:{tag}", f"ranks {a}, {b}, together {c}, space_dim {n}", key=tag)
    ctx.expect(el.lagrange_subdegree == k == el.lagrange_superdegree, "degree", f"lagrange_degree:{tag}", key=tag)
    ctx.expect(el.polynomial_subdegree == k, "degree", f"polynomial_subdegree:{tag}", key=tag)
    if k > 1:
        ctx.expect(el.polynomial_superdegree in (None,), "degree", f"polynomial_superdegree:{tag}", key=tag)


def _create(cell, name, order):
    import symfem

    if order < 0:
        return None
    if name == "dPs":
        name = "Lagrange"
    if name == "dQ":
        name = "Q"
    if name == "TNT" and order < 1:
        return None
    return observed(symfem.create_element(cell, name, order))


def sequence(ctx, sname, cell, k):
    a, b, c, d, off, _ = SEQ[sname]
    t = O.TDIM[cell]
    minord = {"dPs": 0, "dQ": 0, "dPc": 0}
    names = [a, b, c, d] if t == 3 else None
    tag = f"{sname}:{cell}:{k}"
    o = [k + i for i in off]
    if sname == "TNT" and k < 1:
        raise Skip("order")

    def get(i, name):
        if o[i] < minord.get(name, 1):
            return None
        return _create(cell, name, o[i])

    V0 = get(0, a)
    if t == 3:
        V1, V2, V3 = get(1, b), get(2, c), get(3, d)
        step(ctx, tag, "grad", V0, V1, lambda f: S.grad(f, 3), 1, V1 is not None)
        step(ctx, tag, "curl", V1, V2, S.curl3, S.dim(V0) - 1 if V1 else None, V2 is not None)
        step(ctx, tag, "div", V2, V3, lambda v: S.div(v), None, V3 is not None, (V1, S.curl3), True)
    else:
        # 2D: grad / rot and curl / div, the last space one order further up the sequence
        V1 = get(1, b)
        step(ctx, tag, "grad", V0, V1, lambda f: S.grad(f, 2), 1, V1 is not None)
        W1 = _create(cell, c, o[1]) if o[1] >= 1 else None
        step(ctx, tag, "curl", V0, W1, S.curl2, 1, W1 is not None)
        V2o = {"first kind": k - 1, "second kind": k - 2, "tensor": k - 1, "serendipity": k - 2,
               "trimmed": k - 1, "TNT": k}[sname]  # fmt: skip
        V2 = _create(cell, d, V2o) if V2o >= 0 else None
        step(ctx, tag, "rot", V1, V2, S.rot, None, V2 is not None, (V0, lambda f: S.grad(f, 2)), True)
        step(ctx, tag, "div", W1, V2, S.div, None, V2 is not None, (V0, S.curl2), True)


def step(ctx, tag, op, A, B, d, kdim, have, prev=None, onto=False):
    """d(A) is inside B; the kernel has the right dimension; d is onto when it must be."""
    if A is None or B is None:
        ctx.skip("sequence leaves the offered orders")
        return
    img = [d(f) for f in A]
    ctx.expect(S.contains(B, img), "sequence-image", f"sequence:{tag}:{op}", f"{op} does not map into the next space", key=f"{tag}|{op}|in")
    r = S.dim(img)
    na = S.dim(A)
    if prev is not None and prev[0] is not None:
        kdim = S.dim([prev[1](f) for f in prev[0]])
    if kdim is not None:
        ctx.expect(
            na - r == kdim,
            "sequence-kernel",
            f"sequence:{tag}:{op}-kernel",
            f"kernel of {op} has dimension {na - r}, should be {kdim}",
            key=f"{tag}|{op}|ker",
        )
    if onto and "TNT" not in tag:
        ctx.expect(r == S.dim(B), "sequence-onto", f"sequence:{tag}:{op}-onto", f"{op} has rank {r} of {S.dim(B)}", key=f"{tag}|{op}|onto")


def prism_sequence(ctx, k):
    V0 = _create("prism", "Lagrange", k)
    V1 = _create("prism", "Nedelec", k)
    step(ctx, f"prism:{k}", "grad", V0, V1, lambda f: S.grad(f, 3), 1, True)
