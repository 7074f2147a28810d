"""P02: every functional computes the linear functional it documents."""

import random

from harness import fem
from harness import oracle as O
from harness.core import Case

PROPERTY = "P02"
TECHNIQUE = "runtime monitor: functional evaluations checked online against an exact reference model"
RULE = (
    "One case = one functional class on one cell type (reference or random affine, also reflected, "
    "vertices); it draws random entities, points, directions, weights and moment functions and "
    "evaluates the functional on random polynomials (plain), on basis functions of elements "
    "(lazy), on piecewise functions over random subdivisions, on linear combinations and again after "
    "other evaluations. Each value is compared with the oracle's exact model. "
    "Distinct = class x cell x entity x function kind."
)
ASSUMPTIONS = ["moment functions are polynomial (those of every symfem element off the pyramid are)"]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 400}
FLOOR = 1500

CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]
# class -> (kind of function, cells or None)
CLASSES = {
    "PointEvaluation": "s", "WeightedPointEvaluation": "s", "DerivativePointEvaluation": "s",
    "PointDirectionalDerivativeEvaluation": "s", "PointNormalDerivativeEvaluation": "s",
    "PointComponentSecondDerivativeEvaluation": "s", "PointInnerProduct": "m",
    "DotPointEvaluation": "v", "PointDivergenceEvaluation": "v", "IntegralAgainst": "svm",
    "IntegralOfDivergenceAgainst": "v", "IntegralOfDirectionalMultiderivative": "s",
    "IntegralMoment": "svm", "DerivativeIntegralMoment": "s", "DivergenceIntegralMoment": "v",
    "TangentIntegralMoment": "v", "NormalIntegralMoment": "v", "NormalDerivativeIntegralMoment": "s",
    "InnerProductIntegralMoment": "m", "NormalInnerProductIntegralMoment": "m",
    "BernsteinFunctional": "s",
}  # fmt: skip


def worker_init():
    fem.install_recorder()


def cases(tier, seed):
    rng = random.Random(f"p02/{seed}")
    out = []
    reps = 1 if tier == "quick" else 8
    for cls, kinds in CLASSES.items():
        for cell in CELLS:
            t = O.TDIM[cell]
            if cls == "PointNormalDerivativeEvaluation" and t != 2:  # documented for edges
                continue
            if t == 1 and ("Normal" in cls or kinds in ("v", "m")):
                continue
            if cls == "BernsteinFunctional" and cell not in ("interval", "triangle", "tetrahedron"):
                continue
            for kind in kinds:
                if t == 1 and kind in "vm":
                    continue
                for nd in (0, 1):
                    if nd and cls in ("BernsteinFunctional",):
                        continue
                    for r in range(reps):
                        out.append(
                            Case(
                                f"{cls}/{cell}/{kind}/{'affine' if nd else 'ref'}/{r}",
                                "functional",
                                [cls, cell, kind, nd, rng.randint(0, 10**9), 4 if tier == "quick" else 12],
                                cost=3 if t == 3 else 1,
                            )
                        )
    return out


def rand_fun(r, t, kind, deg):
    """Random function of t variables as nested oracle Polys."""
    if kind == "s":
        return O.rand_poly(r, t, deg, 4)
    if kind == "v":
        return [O.rand_poly(r, t, deg, 3) for _ in range(t)]
    return [[O.rand_poly(r, t, deg, 2) for _ in range(t)] for _ in range(t)]


def to_sym(f):
    if isinstance(f, list):
        return tuple(to_sym(i) for i in f)
    return O.poly_to_sympy(f)


def pad3(f):
    if isinstance(f, list):
        return [pad3(i) for i in f]
    return fem.Comp(O.Poly(3, {tuple(list(k) + [0] * (3 - len(k))): v for k, v in f.c.items()}))


def lincomb(a, f, b, g):
    if isinstance(f, list):
        return [lincomb(a, i, b, j) for i, j in zip(f, g)]
    return f * a + g * b


def subdivision(r, cell, verts):
    """A subdivision of a simplex into simplices sharing an interior vertex (None otherwise)."""
    if cell not in ("triangle", "tetrahedron"):
        return None
    n = len(verts)
    w = [O.Fraction(r.randint(1, 5)) for _ in range(n)]
    s = sum(w)
    c = [O.F0] * len(verts[0])
    for v, k in zip(verts, w):
        c = [a + k / s * O.num(b) for a, b in zip(c, v)]
    return [tuple(tuple(v) for j, v in enumerate(verts) if j != i) + (tuple(c),) for i in range(n)]


def continuous(r, t, kind, sub):
    """A continuous piecewise polynomial over the pieces (one function per piece)."""
    apex = sub[0][-1]

    def hat(s):  # barycentric coordinate of the common vertex in piece s
        o, axes = O.frame("triangle" if t == 2 else "tetrahedron", s)
        A, b = O.inverse_affine(o, axes)
        k = list(s).index(apex) - 1
        p = O.Poly.const(t, b[k])
        for i in range(t):
            p = p + O.Poly.var(t, i) * A[k][i]
        return p

    def one():
        g, c = O.rand_poly(r, t, 2, 3), O.rand_frac(r) or O.F1
        return [g + hat(s) * c for s in sub]

    if kind == "s":
        return one()
    if kind == "v":
        return [list(q) for q in zip(*[one() for _ in range(t)])]
    m = [[one() for _ in range(t)] for _ in range(t)]
    return [[[m[i][j][k] for j in range(t)] for i in range(t)] for k in range(len(sub))]


def make(r, cls, cell, kind, ref, C, nd):
    """Random constructor arguments; returns the functional."""
    import symfem
    import sympy
    from symfem import functionals as fl

    t = C.tdim
    tdims = list(range(1, t + 1))
    S = O.sp

    def ent(d):
        return (d, r.randrange(len(O.sub_entities(cell, d))))

    def vec(n):
        return tuple(S(O.rand_frac(r)) for _ in range(n))

    def weight():
        w = S(O.rand_frac(r) or O.F1)
        return w if r.random() < 0.6 else w + S(O.rand_frac(r) or O.F1) * sympy.sqrt(r.choice([2, 3, 7]))

    p = O.affine_point(C.o, C.axes, O.rand_point_in(r, cell))
    if r.random() < 0.3:  # a point on a sub-entity
        d = r.randint(0, t - 1)
        sub = C.sub(*ent(d))
        loc = O.rand_point_in(r, sub.name) if d else []
        p = O.affine_point(sub.o, sub.axes, loc)
    pt = O.spt(p)
    pe = (t, 0)
    if cls == "PointEvaluation":
        return fl.PointEvaluation(ref, pt, entity=pe)
    if cls == "WeightedPointEvaluation":
        return fl.WeightedPointEvaluation(ref, pt, weight(), entity=pe)
    if cls == "DerivativePointEvaluation":
        d = tuple(r.randint(0, 2) for _ in range(t))
        return fl.DerivativePointEvaluation(ref, pt, d, entity=pe)
    if cls == "PointDirectionalDerivativeEvaluation":
        return fl.PointDirectionalDerivativeEvaluation(ref, pt, vec(t), entity=pe)
    if cls == "PointNormalDerivativeEvaluation":
        e = ent(t - 1)
        return fl.PointNormalDerivativeEvaluation(ref, pt, ref.sub_entity(*e), entity=e)
    if cls == "PointComponentSecondDerivativeEvaluation":
        return fl.PointComponentSecondDerivativeEvaluation(ref, pt, (r.randrange(t), r.randrange(t)), entity=pe)
    if cls == "PointInnerProduct":
        return fl.PointInnerProduct(ref, pt, vec(t), vec(t), entity=pe)
    if cls == "DotPointEvaluation":
        return fl.DotPointEvaluation(ref, pt, vec(t), entity=pe)
    if cls == "PointDivergenceEvaluation":
        return fl.PointDivergenceEvaluation(ref, pt, entity=pe)
    if cls == "IntegralOfDirectionalMultiderivative":
        e = ent(r.choice(tdims))
        m = r.randint(1, t)
        dirs = tuple(vec(t) for _ in range(m))
        orders = tuple(r.randint(0, 2) for _ in range(m))
        return fl.IntegralOfDirectionalMultiderivative(ref, dirs, orders, e, scale=weight())
    if cls == "BernsteinFunctional":
        return _bernstein(ref, cell, r)
    facet_only = "Normal" in cls
    if facet_only:
        e = ent(t - 1)
    elif cls == "TangentIntegralMoment":
        e = ent(1)
    elif cls in ("IntegralOfDivergenceAgainst",):
        e = ent(r.choice(tdims))
    else:
        e = ent(r.choice(tdims))
    dom = C.sub(*e)
    m = dom.tdim
    # the moment function, in local coordinates
    sub = (
        symfem.create_element(dom.name, "P" if dom.name in ("interval", "triangle", "tetrahedron") else "Q", 1)
        if dom.name not in ("prism", "pyramid")
        else symfem.create_element(dom.name, "P", 1)
    )
    j = r.randrange(len(sub.dofs))
    dof = sub.dofs[j]
    scalar = sub.get_basis_function(j) if r.random() < 0.4 and dom.name != "pyramid" else to_sym(O.rand_poly(r, m, 2, 3))
    if cls == "IntegralAgainst":
        if kind != "s" and m == 1:  # vector-valued moments on edges are not defined
            e, m = (t, 0), t
        if kind == "s":
            f = scalar
        elif kind == "v":
            f = to_sym([O.rand_poly(r, m, 1, 2) for _ in range(m)])
        else:
            f = to_sym([[O.rand_poly(r, m, 1, 2) for _ in range(m)] for _ in range(m)])
        return fl.IntegralAgainst(ref, f, entity=e)
    if cls == "IntegralOfDivergenceAgainst":
        return fl.IntegralOfDivergenceAgainst(ref, scalar, entity=e)
    if cls == "IntegralMoment":
        if kind == "s":
            mp = r.choice(["identity", "l2"]) if nd else "identity"
            return fl.IntegralMoment(ref, scalar, dof, e, mapping=mp)
        if kind == "v":
            mp = r.choice(["covariant", "contravariant", "identity"])
            k = m if r.random() < 0.6 or e[0] == t else t
            if m == 1 and k == 1:
                k = t
            f = to_sym([O.rand_poly(r, m, 1, 2) for _ in range(k)])
            return fl.IntegralMoment(ref, f, dof, e, mapping=mp)
        mp = r.choice(["double_covariant", "double_contravariant", "identity"])
        if m == 1:
            e = (t, 0)
            m = t
        f = to_sym([[O.rand_poly(r, m, 1, 2) for _ in range(m)] for _ in range(m)])
        return fl.IntegralMoment(ref, f, dof, e, mapping=mp)
    if cls == "DerivativeIntegralMoment":
        return fl.DerivativeIntegralMoment(ref, scalar, vec(t), dof, e)
    if cls == "DivergenceIntegralMoment":
        return fl.DivergenceIntegralMoment(ref, scalar, dof, e)
    if cls == "TangentIntegralMoment":
        return fl.TangentIntegralMoment(ref, scalar, dof, e)
    if cls == "NormalIntegralMoment":
        return fl.NormalIntegralMoment(ref, scalar, dof, e)
    if cls == "NormalDerivativeIntegralMoment":
        return fl.NormalDerivativeIntegralMoment(ref, scalar, dof, e)
    if cls == "InnerProductIntegralMoment":
        return fl.InnerProductIntegralMoment(ref, scalar, vec(t), vec(t), dof, e)
    if cls == "NormalInnerProductIntegralMoment":
        return fl.NormalInnerProductIntegralMoment(ref, scalar, dof, e)
    raise AssertionError(cls)


def _bernstein(ref, cell, r):
    import symfem

    k = r.randint(1, 3 if cell != "interval" else 5)
    el = symfem.create_element(cell, "Bernstein", k)
    ds = [d for d in el.dofs if type(d).__name__ == "BernsteinFunctional"]
    return r.choice(ds or el.dofs)


def functional(ctx, cls, cell, kind, nd, fseed, reps):
    import symfem
    from symfem.functions import parse_function_input
    from symfem.piecewise_functions import PiecewiseFunction

    r = random.Random(fseed)
    for k in range(reps):
        if nd:
            A, b, vs = O.rand_affine_cell(r, cell)
            verts = tuple(O.spt(v) for v in vs)
            ref = symfem.create_reference(cell, verts)
        else:
            ref = symfem.create_reference(cell)
        C = fem.Cell(cell, ref.vertices)
        try:
            d = make(r, cls, cell, kind, ref, C, nd)
        except NotImplementedError:
            ctx.skip(f"refused: {cls} on {'affine' if nd else 'reference'} {cell}")
            ctx.seen("refused", f"{cls}|{cell}|{nd}")
            continue
        try:
            F = fem.Functional.of(d)
        except fem.OutOfModel as e:
            ctx.skip(str(e))
            continue
        t = C.tdim
        deg = 3 if kind == "s" else 2
        if cls == "BernsteinFunctional" and type(d).__name__ == "BernsteinFunctional":
            deg = d.degree
        mech = f"{type(d).__name__}:{cell}"
        ent = d.entity

        def judge(fn, model_pieces, what):
            try:
                want = F.ev(model_pieces)
            except fem.OutOfModel as e:
                ctx.skip(f"{what}: {e}")
                return None
            got = O.num(d.eval(fn).as_sympy())
            ctx.expect(
                any(O.close(got, w) for w in want),
                what,
                mech,
                f"{type(d).__name__} on entity {ent}: {what} evaluation",
                got=got,
                want=want,
                key=f"{cls}|{cell}|{ent}|{nd}|{kind}",
                fn=fn,
                args=F.args[1:],
            )
            return got

        def flt(fn, v):
            w = d.eval(fn, symbolic=False)
            ctx.expect(
                abs(float(w) - float(O.tomp(v))) < 1e-9 * (1 + abs(float(O.tomp(v)))),
                "float",
                mech + ":float",
                "eval(symbolic=False) differs",
                got=w,
                want=v,
            )

        f, g = rand_fun(r, t, kind, deg), rand_fun(r, t, kind, deg)
        fs, gs = parse_function_input(to_sym(f)), parse_function_input(to_sym(g))
        v1 = judge(fs, [(None, pad3(f))], "plain")
        if v1 is None:
            continue
        judge(gs, [(None, pad3(g))], "plain")
        a, bb = O.rand_frac(r) or O.F1, O.rand_frac(r) or O.F1
        lc = lincomb(a, f, bb, g)
        judge(fs * O.sp(a) + gs * O.sp(bb), [(None, pad3(lc))], "linear")
        v2 = O.num(d.eval(parse_function_input(to_sym(f))).as_sympy())
        ctx.expect(O.close(v1, v2), "again", mech + ":history", "value changed on re-evaluation")
        flt(fs, v1)
        # lazy functions
        lazy = {"s": ("P", 2), "v": ("N1curl", 1), "m": ("Regge", 0)}[kind]
        if (kind == "s" or cell in ("triangle", "tetrahedron")) and cell not in ("pyramid", "prism"):
            nm = lazy[0]
            if cell in ("quadrilateral", "hexahedron"):
                nm = "Q"
            el = symfem.create_element(cell, nm, lazy[1])
            bf = el.get_basis_function(r.randrange(el.space_dim))
            judge(bf, fem.read(bf), "lazy")
        # piecewise functions
        sub = subdivision(r, cell, C.verts)
        # derivatives of a continuous piecewise function have no single value where pieces meet
        amb = "Deriv" in cls or "derivative" in cls or "Diverg" in cls
        if amb and "Point" not in cls and ent[0] < t - 1:
            sub = None
        if sub is not None and type(d).__name__ != "BernsteinFunctional":
            r.shuffle(sub)
            fp = continuous(r, t, kind, sub)
            pw = PiecewiseFunction({tuple(O.spt(v) for v in s): to_sym(q) for s, q in zip(sub, fp)}, t)
            judge(pw, [(list(s), pad3(q)) for s, q in zip(sub, fp)], "piecewise")
        if k == 0:
            ctx.sample({"class": cls, "cell": cell, "entity": list(ent), "value": str(v1)[:60]})
