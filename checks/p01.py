"""P01: basis functions are dual to the DOFs and span the element space."""

import random
from fractions import Fraction

from harness import catalogue, deep, fem, spaces
from harness import oracle as O
from harness.core import Case, Skip

PROPERTY = "P01"
RULE = (
    "One case = one element configuration (family, cell, order, variant/keywords, default or random "
    "affine vertices) or one randomly generated user-defined Ciarlet element. The constructor "
    "arguments of every functional are recorded while the element is built; each DOF is then "
    "re-evaluated by the oracle's own functional model (exact rational / 50-digit arithmetic) on "
    "random linear combinations of all basis functions (so one evaluation observes a whole row of "
    "the duality matrix) and by symfem's eval on sampled pairs; spans are compared by rank. "
    "Non-trivial/distinct = distinct configuration x DOF actually evaluated with space_dim >= 1."
)
ASSUMPTIONS = ["the functional model in harness/fem.py states the documented functionals"]
BUDGET = {"quick": 330, "thorough": 860}
CASE_LIMIT = {"quick": 100, "thorough": 600}
FLOOR = 2000


def worker_init():
    fem.install_recorder()


def cases(tier, seed):
    quick = tier == "quick"
    items = catalogue.select(6 if quick else 60, pred=lambda c, n, k, o, kind: "dual" not in c)
    items = catalogue.thin(items, 60 if quick else 1500, seed, factor=1.4)
    items += catalogue.kept(17 if quick else 60, items)
    out = [
        Case(f"elem/{lb}", "element", [cell, name, kw, order, None], cost=cost, prio=4) for lb, cell, name, kw, order, cost, dim in items
    ]
    # non-default cells
    rng = random.Random(seed)
    nd = [i for i in catalogue.select(0.6 if quick else 5) if i[1] != "prism" and "dual" not in i[1]]
    rng.shuffle(nd)
    nd = sorted(nd, key=lambda i: 0 if i[4] <= 3 else 1)[: 90 if quick else 400]
    for lb, cell, name, kw, order, cost, dim in nd:
        out.append(Case(f"cell/{lb}", "element", [cell, name, kw, order, rng.randint(0, 10**9)], cost * 3, 5))
    for i in range(24 if quick else 200):
        out.append(Case(f"user/{i}", "user_element", [rng.randint(0, 10**9)], 1.0, 4))
    for cell, name, kw, order in deep.orders(6 if quick else 60, 1 if quick else 3):
        lb = catalogue.label(cell, name, kw, order)
        out.append(Case(f"deep/{lb}", "high", [cell, name, kw, order, 56 if quick else 150], 3, 5))
    return out


def high(ctx, cell, name, kw, order, top):
    """The matrix of the DOFs on the polynomial set, without symfem's inversion of it."""
    tag = catalogue.label(cell, name, kw, order)
    el = deep.element(cell, name, kw, order, top)
    pb = deep.polys(el)
    n = len(pb)
    if not ctx.expect(
        el.space_dim == n == len(el.dofs), "count", f"count:{tag}",
        f"space_dim {el.space_dim}, {n} polynomials, {len(el.dofs)} DOFs",
    ):  # fmt: skip
        return
    try:
        m = deep.matrix(el, pb)
    except fem.OutOfModel as e:
        raise Skip(f"model: {e}")
    ctx.expect(
        deep.inverse(m) is not None, "unisolvent", f"unisolvent:{tag}", "the matrix of the DOFs on the polynomial set is singular", key=tag
    )
    own = el.get_polynomial_basis()
    for _ in range(8):
        i, j = ctx.rng.randrange(n), ctx.rng.randrange(n)
        v = el.dofs[i].eval(own[j])
        v = O.num(v.as_sympy() if hasattr(v, "as_sympy") else v)
        ctx.expect(
            O.close(v, m[i][j]), "eval-entry", f"eval:{tag}", f"eval of DOF {i} on polynomial {j}", got=v, want=m[i][j], key=f"{tag}|{i}"
        )


def combos(basis_pieces, rng):
    """A random linear combination of the basis functions, per piece (None if not polynomial)."""
    n = len(basis_pieces)
    coef = [Fraction(rng.randint(-9, 9) or 10, rng.choice((1, 2, 3))) for _ in range(n)]
    keys = [[tuple(map(tuple, vs)) if vs else None for vs, _ in b] for b in basis_pieces]
    if any(k != keys[0] for k in keys):
        return coef, None
    out = []
    for pi in range(len(keys[0])):
        comps = [b[pi][1] for b in basis_pieces]

        def comb(cs):
            if isinstance(cs[0], fem.Comp):
                if any(c.poly is None for c in cs):
                    import sympy

                    return fem.Comp(sympy.Add(*[O.sp(a) * c.expr for a, c in zip(coef, cs)]))
                p = O.Poly(3)
                for a, c in zip(coef, cs):
                    p = p + c.poly * a
                return fem.Comp(p)
            return [comb([c[i] for c in cs]) for i in range(len(cs[0]))]

        out.append((basis_pieces[0][pi][0], comb(comps)))
    return coef, out


def vectors(funs_pieces, rng):
    """Coefficient (or sample) vectors of functions, comparable between functions."""
    allp = all(c.poly is not None for f in funs_pieces for _, cs in f for c in fem.flat(cs))
    rows = []
    if allp:
        cols = {}
        data = []
        for f in funs_pieces:
            r = {}
            for vs, cs in f:
                k0 = tuple(map(tuple, vs)) if vs else None
                for ci, c in enumerate(fem.flat(cs)):
                    for e, v in c.poly.c.items():
                        k = (k0, ci, e)
                        cols.setdefault(k, len(cols))
                        r[cols[k]] = v
            data.append(r)
        for r in data:
            rows.append([r.get(j, O.F0) for j in range(len(cols))])
        return rows
    npts = 3 * len(funs_pieces) + 5
    n = 3
    pts = [[Fraction(rng.randint(1, 97), 193 + i) for i in range(n)] for _ in range(npts)]
    for f in funs_pieces:
        row = []
        for vs, cs in f:
            for p in pts:
                row += fem.flatv(fem.value(cs, p))
        rows.append(row)
    return rows


def check_duality(ctx, tag, el, basis, nsym):
    """Returns the number of DOFs observed."""
    rng = ctx.rng
    n = len(basis)
    ctx.expect(
        el.space_dim == n == len(el.dofs),
        "count",
        f"count:{tag}",
        f"space_dim {el.space_dim}, {n} basis functions, {len(el.dofs)} DOFs",
    )
    pieces = [fem.read(b) for b in basis]
    combs = [combos(pieces, rng) for _ in range(2)]
    unmodelled = []
    for i, d in enumerate(el.dofs):
        try:
            F = fem.Functional.of(d)
            for coef, comb in combs:
                if comb is None:
                    vals = None
                    for j in range(n):
                        vals = F.ev(pieces[j])
                        want = O.F1 if i == j else O.F0
                        ctx.expect(
                            any(O.close(v, want) for v in vals),
                            "dual-pair",
                            f"duality:{tag}",
                            f"DOF {i} of basis function {j}",
                            got=vals,
                            key=f"{tag}|{i}",
                        )
                    break
                vals = F.ev(comb)
                ctx.expect(
                    any(O.close(v, coef[i]) for v in vals),
                    "dual-row",
                    f"duality:{tag}",
                    f"DOF {i} ({type(d).__name__}) of sum c_j phi_j is not c_{i}",
                    got=vals,
                    want=coef[i],
                    key=f"{tag}|{i}",
                )
        except fem.OutOfModel as e:
            ctx.skip(f"model: {e}")
            unmodelled.append(i)
    # symfem's own evaluation
    pairs = [(i, i) for i in rng.sample(range(n), min(n, nsym))]
    pairs += [(rng.randrange(n), rng.randrange(n)) for _ in range(nsym)]
    for i in unmodelled:
        pairs += [(i, i), (i, rng.randrange(n)), (i, rng.randrange(n))]
    for i, j in pairs:
        v = el.dofs[i].eval(basis[j])
        want = 1 if i == j else 0
        ctx.expect(
            v == want,
            "eval-pair",
            f"eval:{tag}",
            f"eval of DOF {i} on basis function {j}",
            got=v,
            key=f"{tag}|{i}|{j}",
        )
    ctx.sample({"config": tag, "dim": n, "dof0": type(el.dofs[0]).__name__})
    # span
    pb = [fem.read(p) for p in el.get_polynomial_basis()]
    try:
        if len({tuple(map(tuple, vs)) if vs else None for f in pb + pieces for vs, _ in f}) > 1 and any(
            f[0][0] is None for f in pb + pieces
        ):
            # mix of plain and piecewise functions: expand plain ones over the pieces
            keys = next(f for f in pb + pieces if f[0][0] is not None)
            ex = lambda f: [(vs, f[0][1]) for vs, _ in keys] if f[0][0] is None else f  # noqa: E731
            pb, pieces = [ex(f) for f in pb], [ex(f) for f in pieces]
        rows = vectors(pb + pieces, rng)
    except fem.OutOfModel as e:
        ctx.skip(f"span: {e}")
        return
    r1 = spaces.rank(rows[n:])
    r2 = spaces.rank(rows)
    ctx.expect(r1 == n, "independent", f"rank:{tag}", f"basis functions have rank {r1} of {n}")
    ctx.expect(r2 == n, "span", f"span:{tag}", f"basis and polynomial set span dimension {r2}, not {n}")


def element(ctx, cell, name, kw, order, vseed):
    import symfem
    from symfem.finite_element import CiarletElement

    tag = catalogue.label(cell, name, kw, order)
    verts = None
    if vseed is not None:
        r = random.Random(vseed)
        A, b, vs = O.rand_affine_cell(r, cell)
        verts = tuple(O.spt(v) for v in vs)
        tag += "@cell"
    try:
        if verts is None:
            el = symfem.create_element(cell, name, order, **kw)
        else:
            el = symfem.create_element(cell, name, order, vertices=verts, **kw)
    except NotImplementedError as e:  # includes NonDefaultReferenceError
        if verts is None:
            raise
        ctx.seen("refused-nondefault", tag)
        raise Skip(f"refused on non-default cell: {type(e).__name__}")
    if not isinstance(el, CiarletElement):
        basis = el.get_basis_functions()
        ctx.expect(len(basis) == el.space_dim, "count", f"count:{tag}", "space_dim wrong")
        return
    basis = el.get_basis_functions()
    check_duality(ctx, tag, el, basis, 2 if ctx.tier == "quick" else 6)


def user_element(ctx, useed):
    """A random Ciarlet element: random polynomial space, random functionals."""
    import sympy
    import symfem
    from symfem import functionals as fl
    from symfem.finite_element import CiarletElement

    r = random.Random(useed)
    cell = r.choice(["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism"])
    t = O.TDIM[cell]
    ref = symfem.create_reference(cell)
    kind = r.choice(["scalar", "scalar", "vector"]) if t > 1 else "scalar"
    n = r.randint(2, 6)
    xs = sympy.symbols("x y z")[:t]
    basis = []
    for _ in range(n):
        if kind == "scalar":
            basis.append(O.poly_to_sympy(O.rand_poly(r, t, 2, 3)))
        else:
            basis.append(tuple(O.poly_to_sympy(O.rand_poly(r, t, 1, 2)) for _ in range(t)))
    dofs = []
    for i in range(n):
        dim = r.randint(0, t)
        e = r.randrange(len(O.sub_entities(cell, dim)))
        pt = tuple(O.sp(v) for v in O.rand_point_in(r, cell))
        if kind == "scalar":
            k = r.choice(["point", "weighted", "deriv", "dir", "against", "int"])
            if k == "point":
                dofs.append(fl.PointEvaluation(ref, pt, entity=(t, 0)))
            elif k == "weighted":
                dofs.append(fl.WeightedPointEvaluation(ref, pt, O.sp(O.rand_frac(r) or O.F1), entity=(t, 0)))
            elif k == "deriv":
                der = tuple(1 if j == i % t else 0 for j in range(t))
                dofs.append(fl.DerivativePointEvaluation(ref, pt, der, entity=(t, 0)))
            elif k == "dir":
                d = tuple(O.sp(O.rand_frac(r)) for _ in range(t))
                dofs.append(fl.PointDirectionalDerivativeEvaluation(ref, pt, d, entity=(t, 0)))
            elif k == "against":
                dd = max(dim, 1)
                e = r.randrange(len(O.sub_entities(cell, dd)))
                f = O.poly_to_sympy(O.rand_poly(r, dd, 1, 2))
                dofs.append(fl.IntegralAgainst(ref, f, entity=(dd, e)))
            else:
                dd = max(dim, 1)
                e = r.randrange(len(O.sub_entities(cell, dd)))
                orders = tuple(1 if j == i % t else 0 for j in range(t))
                dirs = tuple(tuple(O.sp(O.rand_frac(r)) for _ in range(t)) for _ in range(t))
                dofs.append(fl.IntegralOfDirectionalMultiderivative(ref, dirs, orders, (dd, e), scale=O.sp(O.rand_frac(r) or O.F1)))
        else:
            k = r.choice(["dot", "normal", "tangent", "div"])
            if k == "dot":
                v = tuple(O.sp(O.rand_frac(r)) for _ in range(t))
                dofs.append(fl.DotPointEvaluation(ref, pt, v, entity=(t, 0)))
            elif k == "div":
                dofs.append(fl.PointDivergenceEvaluation(ref, pt, entity=(t, 0)))
            elif k == "tangent":
                e = r.randrange(len(O.EDGES[cell]))
                sub = symfem.create_element("interval", "P", 1, variant="equispaced")
                j = r.randrange(2)
                dofs.append(fl.TangentIntegralMoment(ref, sub.get_basis_function(j), sub.dofs[j], (1, e)))
            else:
                e = r.randrange(len(O.sub_entities(cell, t - 1)))
                sc = O.sub_entities(cell, t - 1)[e]
                sub = symfem.create_element(O.entity_type(t - 1, len(sc)), "P", 1)
                j = r.randrange(len(sub.dofs))
                dofs.append(fl.NormalIntegralMoment(ref, sub.get_basis_function(j), sub.dofs[j], (t - 1, e)))

    class UserElement(CiarletElement):
        names = ["verif user element"]
        references = [cell]
        min_order = 1
        continuity = "L2"
        cache = r.random() < 0.5
        last_updated = f"v{useed}"

        def __init__(self, reference, order):
            super().__init__(reference, order, basis, dofs, t, 1 if kind == "scalar" else t)

    el = UserElement(ref, 1)
    # unisolvent?  decided by the oracle
    try:
        M = [[fem.Functional.of(d).ev(fem.read(symfem.functions.parse_function_input(b)))[0] for d in dofs] for b in basis]
    except fem.OutOfModel as e:
        raise Skip(f"user: {e}")
    if O.rref_rank(M) < n:
        raise Skip("not unisolvent")
    for i, b in enumerate(el.get_polynomial_basis()):
        for j, d in enumerate(el.dofs):
            v = O.num(d.eval(b).as_sympy())
            ctx.expect(
                O.close(v, M[i][j]),
                "user-matrix",
                f"user-eval:{type(d).__name__}",
                "functional value differs from the model",
                got=v,
                want=M[i][j],
            )
    check_duality(ctx, f"user-{cell}-{kind}", el, el.get_basis_functions(), 4)
