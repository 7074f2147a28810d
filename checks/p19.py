"""P19: every DOF belongs to the sub-entity it says."""

import random
from fractions import Fraction

import sympy

from checks import p04
from harness import catalogue as C
from harness import deep, fem, spaces
from harness import oracle as O
from harness.core import Case, Skip

PROPERTY = "P19"
TECHNIQUE = (
    "runtime monitor: the layout every element reports, its functionals applied to functions with zero restriction or trace, "
    "and the traces of its basis functions, against independent geometry"
)
RULE = (
    "One case = one element on the reference cell or on a random affine cell. The monitor checks that entity_dofs partitions "
    "the DOFs and agrees with dof_entities and the functionals; that points and plot positions lie on the closure of the entity; "
    "applies each functional to random functions that vanish on its entity (or whose normal/tangential trace does, or that "
    "vanish at its point, or that do not see its direction) and requires zero; evaluates the declared trace of every basis "
    "function on every facet away from its entity. Distinct = element x cell x DOF x kind of function or facet."
)
ASSUMPTIONS = [
    "a functional that takes m derivatives is tested with functions that vanish there to order m + 1",
    "traces are evaluated at random points of the facet",
]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 400}
FLOOR = 8000

DERIVS = {
    "DerivativePointEvaluation": None, "PointDirectionalDerivativeEvaluation": 1, "PointNormalDerivativeEvaluation": 1,
    "PointComponentSecondDerivativeEvaluation": 2, "PointDivergenceEvaluation": 1, "IntegralOfDivergenceAgainst": 1,
    "IntegralOfDirectionalMultiderivative": None, "DerivativeIntegralMoment": 1, "DivergenceIntegralMoment": 1,
    "NormalDerivativeIntegralMoment": 1,
}  # fmt: skip
POINTS = {
    "PointEvaluation", "WeightedPointEvaluation", "DerivativePointEvaluation", "PointDirectionalDerivativeEvaluation",
    "PointNormalDerivativeEvaluation", "PointComponentSecondDerivativeEvaluation", "PointInnerProduct", "DotPointEvaluation",
    "PointDivergenceEvaluation",
}  # fmt: skip
# classes that see one direction of the function only
ONE_DIRECTION = {
    "PointDirectionalDerivativeEvaluation", "PointNormalDerivativeEvaluation", "PointInnerProduct", "DotPointEvaluation",
    "TangentIntegralMoment", "NormalIntegralMoment", "NormalDerivativeIntegralMoment", "InnerProductIntegralMoment",
    "NormalInnerProductIntegralMoment",
}  # fmt: skip
# elements whose sub-entities have orders of their own; Fortin-Soulie: the six edge points would lie on an ellipse
UNEQUAL = {"transition", "FS"}
# every DOF sees the declared trace only (others add DOFs for more than that)
PURE = {
    "H(div)": {"ABF", "AC", "BDDF", "BDFM", "BDM", "Qdiv", "RT", "Sdiv", "TNTdiv", "TSdiv"},
    "H(curl)": {"Nedelec", "Nedelec1", "Nedelec2", "Qcurl", "Scurl", "TNTcurl", "TScurl"},
}


def cases(tier, seed):
    quick = tier == "quick"
    rng = random.Random(f"p19/{seed}")
    items = C.select(2 if quick else 40)
    items = C.thin(items, 22 if quick else 500, seed, factor=3)
    items += C.kept(6 if quick else 40, items)
    out = []
    for it in items:
        out.append(Case(f"layout/{it[0]}", "layout", [it[1], it[2], it[3], it[4], None], it[5] * 2 + 0.2))
        if rng.random() < (0.25 if quick else 0.8) and it[5] < (1 if quick else 10) and "dual" not in it[1]:
            out.append(Case(f"layout/{it[0]}@cell", "layout", [it[1], it[2], it[3], it[4], rng.randint(1, 10**9)], it[5] * 4 + 0.4))
    for cell, name, kw, order in deep.orders(2 if quick else 40, 1 if quick else 3):
        lb = C.label(cell, name, kw, order)
        out.append(Case(f"deep/{lb}", "layout", [cell, name, kw, order, None, 60 if quick else 200], 3))
    for cell, orders in (("interval", (1, 2, 5, 8)), ("triangle", (1, 2, 3, 4, 6)), ("tetrahedron", (1, 2, 3, 4, 5, 6))):
        for k in orders:
            out.append(Case(f"counts/Bernstein/{cell}/{k}", "bernstein", [cell, k], 0.5))
    for cell in ("interval", "triangle", "quadrilateral", "tetrahedron"):
        for n in range(2 if quick else 8):
            out.append(Case(f"direct/{cell}/{n}", "direct", [cell, rng.randint(1, 10**9)], 0.3))
    return out


def bernstein(ctx, cell, k):
    """Number of DOFs on every sub-entity; the functionals' weights, which take minutes to compute, are left out."""
    import symfem
    from symfem.elements import bernstein as mod
    from symfem.functionals import BaseFunctional

    cls = getattr(mod, "BernsteinFunctional", None)
    if cls is None:
        raise Skip("the functionals have another name")

    def light(self, reference, integral_domain, index, degree, entity):
        BaseFunctional.__init__(self, reference, entity, "identity")
        self.ref, self.index, self.degree = integral_domain, index, degree

    held = cls.__init__
    cls.__init__ = light
    try:
        el = symfem.create_element(cell, "Bernstein", k)
    except TypeError as e:
        raise Skip(f"the functionals are created in another way: {e}")
    finally:
        cls.__init__ = held
    t = O.TDIM[cell]
    for d in range(t + 1):
        want = O.binom(k - 1, d)
        for e in range(len(O.sub_entities(cell, d))):
            ctx.expect(
                len(el.entity_dofs(d, e)) == want, "partition", f"count:{cell}/Bernstein/{k}",
                f"entity {(d, e)} has {len(el.entity_dofs(d, e))} DOFs, {want} expected", key=f"{cell}|{k}|{d}|{e}",
            )  # fmt: skip


def direct(ctx, cell, seed):
    """A user's direct element with any number of functions on any entities: layout and plot positions."""
    import symfem
    from symfem.finite_element import DirectElement

    class Own(DirectElement):
        names = ["own"]
        references = [cell]
        min_order = 1
        continuity = "L2"
        value_type = "scalar"
        last_updated = "x"

    r = random.Random(seed)
    t = O.TDIM[cell]
    ref = symfem.create_reference(cell)
    if r.random() < 0.5:
        _, _, vs = O.rand_affine_cell(r, cell)
        ref = symfem.create_reference(cell, vertices=tuple(O.spt(v) for v in vs))
    ents = []
    for d in range(t + 1):
        for e in range(len(O.sub_entities(cell, d))):
            ents += [(d, e)] * (r.randint(0, 1) if d == 0 else r.choice([0, 1, 2, 3, 4, 6, 7, 10, 11]))
    if not ents:
        ents = [(t, 0)]
    r.shuffle(ents)
    xs = sympy.symbols("x y z")[:t]
    el = Own(ref, 1, [xs[0] ** i for i in range(len(ents))], ents, t, 1)
    tag = f"user direct element on {cell}"
    n = len(ents)
    ctx.expect(el.dof_entities() == ents, "partition", f"entities:{tag}", "dof_entities differs from what the element was given")
    for d in range(t + 1):
        for e in range(len(O.sub_entities(cell, d))):
            ctx.expect(
                list(el.entity_dofs(d, e)) == [i for i in range(n) if ents[i] == (d, e)], "partition", f"lookup:{tag}",
                f"entity_dofs({d}, {e}) wrong", key=f"{seed}|{d}|{e}",
            )  # fmt: skip
    verts = [tuple(O.num(c) for c in v) for v in ref.vertices]
    positions(ctx, tag, el, fem.Cell(cell, verts), ents, None, n)


def rational(v):
    v = sympy.nsimplify(sympy.radsimp(sympy.sympify(v)))
    return Fraction(int(v.p), int(v.q)) if v.is_Rational else None


def forms(pts, g):
    """Affine forms (coefficients, constant) that span those vanishing at all the points."""
    return [(n[:g], n[g]) for n in spaces.nullspace([[*map(Fraction, p), Fraction(1)] for p in pts], g + 1)]


def lin(form, xs):
    return sum((O.sp(a) * s for a, s in zip(form[0], xs)), O.sp(form[1]))


def rpoly(r, xs, deg=1):
    """A random polynomial, nonzero almost surely."""
    return O.poly_to_sympy(O.rand_poly(r, len(xs), deg, 3)) + r.randint(1, 9)


def vanishing(r, fs, xs, m):
    """A random polynomial that vanishes to order m + 1 wherever all the forms do."""
    out = 0
    for f in fs:
        out += rpoly(r, xs) * lin(f, xs) ** (m + 1)
    return out


def derivs(d):
    cls = type(d).__name__
    m = DERIVS.get(cls, 0)
    if m is None:
        m = sum(d.derivative) if cls == "DerivativePointEvaluation" else sum(d.orders)
    return m


def value(d, f):
    v = d.eval(f)
    return O.num(v.as_sympy() if hasattr(v, "as_sympy") else v)


def parse(shape, make):
    """A symfem function of this shape (None scalar, n vector, (n, m) matrix), components from make()."""
    from symfem.functions import parse_function_input

    if shape is None:
        return parse_function_input(make())
    if isinstance(shape, int):
        return parse_function_input(tuple(make() for _ in range(shape)))
    return parse_function_input(sympy.Matrix(shape[0], shape[1], lambda i, j: make()))


def element_shape(el):
    if el.range_dim == 1:
        return None
    if el.range_shape is not None and len(el.range_shape) == 2:
        return tuple(el.range_shape)
    return el.range_dim


def combo(r, vecs, xs, n):
    """sum of the vectors with random polynomial coefficients, as a symfem vector function."""
    from symfem.functions import parse_function_input

    out = [sympy.Integer(0)] * n
    for v in vecs:
        p = rpoly(r, xs)
        out = [o + p * O.sp(Fraction(c)) for o, c in zip(out, v)]
    return parse_function_input(tuple(out))


def perp(v):
    return spaces.nullspace([[Fraction(c) for c in v]], len(v))


def layout(ctx, cell, name, kw, order, vseed, top=None):
    """top: the order is too high for the basis functions; largest dimension."""
    import symfem

    tag = C.label(cell, name, kw, order)
    r = random.Random(f"{tag}/{vseed}/{ctx.tier}")
    verts = None
    extra = {}
    if vseed is not None:
        _, _, verts = O.rand_affine_cell(random.Random(vseed), cell)
        extra = {"vertices": tuple(O.spt(v) for v in verts)}
        tag += "@cell"
    try:
        el = symfem.create_element(cell, name, order, **kw, **extra) if top is None else deep.element(cell, name, kw, order, top)
    except NotImplementedError as e:
        if verts is None:
            raise
        ctx.seen("refused on other cells", tag)
        raise Skip(type(e).__name__)
    n = el.space_dim
    ents = el.dof_entities()
    ctx.expect(len(ents) == n, "partition", f"length:{tag}", "dof_entities has the wrong length", got=len(ents), want=n)
    dual = "dual" in cell
    t = el.reference.tdim
    where = [None] * n
    counts = {}
    for d in range(t + 1):
        k = len(el.reference.sub_entities(d))
        if not dual and not ctx.expect(
            k == len(O.sub_entities(cell, d)), "cell", f"entities:{tag}", f"the cell has {k} sub-entities of dimension {d}"
        ):
            return
        for e in range(k):
            ed = el.entity_dofs(d, e)
            counts[d, e] = len(ed)
            ctx.expect(
                list(ed) == sorted(set(ed)) and all(0 <= i < n for i in ed), "partition", f"sorted:{tag}",
                f"entity_dofs({d}, {e}) is not a list of distinct increasing DOF numbers", got=list(ed),
            )  # fmt: skip
            for i in ed:
                if not ctx.expect(
                    where[i] is None, "partition", f"twice:{tag}", f"DOF {i} belongs to {where[i]} and {(d, e)}", key=f"{tag}|{i}"
                ):
                    return
                where[i] = (d, e)
    for i in range(n):
        ctx.expect(where[i] is not None, "partition", f"lost:{tag}", f"DOF {i} belongs to no entity", key=f"{tag}|{i}")
        if not ctx.expect(
            where[i] == tuple(ents[i]), "partition", f"entities:{tag}", f"DOF {i}: entity_dofs and dof_entities disagree",
            got=tuple(ents[i]), want=where[i], key=f"{tag}|{i}",
        ):  # fmt: skip
            return
    dofs = collect(el)
    if dofs is not None:
        for i, d in enumerate(dofs):
            ctx.expect(
                tuple(d.entity) == where[i] and (d.entity_dim(), d.entity_number()) == where[i], "partition",
                f"functional:{tag}", f"functional {i} is attached to {tuple(d.entity)}, the element says {where[i]}",
                key=f"{tag}|{i}",
            )  # fmt: skip
    if name not in UNEQUAL and not dual:
        for d in range(t + 1):
            kinds = {}
            for e, vs in enumerate(O.sub_entities(cell, d)):
                kinds.setdefault(len(vs), set()).add(counts[d, e])
            for nv, c in kinds.items():
                ctx.expect(
                    len(c) == 1, "symmetry", f"symmetry:{tag}",
                    f"entities of dimension {d} with {nv} vertices have different numbers of DOFs", got=sorted(c), key=f"{tag}|{d}|{nv}",
                )  # fmt: skip
    if dual:
        dual_positions(ctx, tag, el, n)
        return
    verts = [tuple(O.num(c) for c in v) for v in el.reference.vertices]
    whole = fem.Cell(cell, verts)
    positions(ctx, tag, el, whole, where, dofs, n)
    if dofs is not None:
        locality(ctx, tag, el, whole, where, dofs, name, r, 14 if top is None else 6)
    if top is None:
        traces(ctx, tag, el, cell, verts, where, name, r)
    ctx.sample({"config": tag, "counts": {f"{k}": v for k, v in list(counts.items())[:6]}})


def collect(el):
    if hasattr(el, "dofs"):
        return el.dofs
    if hasattr(el, "_subelements"):
        parts = [collect(e) for e in el._subelements]
        return None if any(p is None for p in parts) else [d for p in parts for d in p]
    return None


def dual_positions(ctx, tag, el, n):
    pos = el.dof_plot_positions()
    ctx.expect(len(pos) == n, "position", f"count:{tag}", "one plot position per DOF expected", got=len(pos))
    ctx.expect(len(el.dof_directions()) == n, "position", f"directions:{tag}", "one direction per DOF expected")


def positions(ctx, tag, el, whole, where, dofs, n):
    pos = el.dof_plot_positions()
    dirs = el.dof_directions()
    if not ctx.expect(len(pos) == n and len(dirs) == n, "position", f"count:{tag}", "one position and one direction per DOF expected"):
        return
    placed = {}
    for i in range(n):
        sub = whole.sub(*where[i])
        what = [("plot position", pos[i])]
        if dofs is not None:
            what += [("dof_point", dofs[i].dof_point()), ("adjusted_dof_point", dofs[i].adjusted_dof_point())]
        for label, p in what:
            if any(c is None for c in p):
                ctx.seen("no DOF point", f"{tag}|{i}")
                continue
            p = [O.num(c) for c in p]
            if not ctx.expect(len(p) == whole.gdim, "position", f"dimension:{tag}", f"the {label} of DOF {i} has {len(p)} coordinates"):
                return
            if sub.tdim == 0:
                ok = all(O.close(a, b) for a, b in zip(p, sub.o))
            else:
                try:
                    ok = fem.on_cell(sub, p)
                except fem.OutOfModel:
                    ctx.seen("irrational position in a prism or pyramid", tag)
                    continue
            ctx.expect(
                ok, "position", f"{label}:{tag}", f"the {label} of DOF {i} is not on its entity {where[i]}", got=p,
                key=f"{tag}|{i}|{label}",
            )  # fmt: skip
        if dofs is None and not hasattr(el, "_subelements"):
            key = (where[i], tuple(O.num(c) for c in pos[i]))
            ctx.expect(
                key not in placed, "position", f"distinct:{tag}", f"DOFs {placed.get(key)} and {i} are drawn at the same point",
                key=f"{tag}|{i}|distinct",
            )  # fmt: skip
            placed[key] = i
        d = dirs[i]
        if d is None:
            continue
        try:
            num = [O.num(c) for c in d]
        except O.NotAValue as e:
            ctx.violate(f"direction not numbers:{tag}", f"direction of DOF {i}: {e}")
            return
        ctx.expect(
            any(not O.is_zero(c) for c in num), "direction", f"zero-direction:{tag}", f"the direction of DOF {i} is zero",
            key=f"{tag}|{i}|zero",
        )  # fmt: skip
        if dofs is None:
            continue
        ctx.expect(
            dofs[i].dof_direction() == d and len(d) == whole.gdim, "direction", f"direction:{tag}",
            f"direction of DOF {i}: element and functional disagree, or wrong dimension", key=f"{tag}|{i}",
        )  # fmt: skip


def zero(ctx, tag, i, d, f, kind, why):
    v = value(d, f)
    return ctx.expect(
        O.is_zero(v), "locality", f"{kind}:{tag}", f"functional {i} ({type(d).__name__} on {tuple(d.entity)}) {why}", got=v,
        key=f"{tag}|{i}|{kind}",
    )  # fmt: skip


def locality(ctx, tag, el, whole, where, dofs, name, r, cap):
    g = whole.gdim
    t = whole.tdim
    xs = sympy.symbols("x y z")[:g]
    todo = list(range(len(dofs)))
    cap = cap if ctx.tier == "quick" else 60
    if len(todo) > cap:
        # at least one DOF of every kind and entity dimension
        firsts = {}
        for i in todo:
            firsts.setdefault((type(dofs[i]).__name__, where[i][0]), i)
        keep = set(firsts.values())
        rest = [i for i in todo if i not in keep]
        todo = sorted(keep | set(r.sample(rest, max(0, min(len(rest), cap - len(keep))))))
    shape = element_shape(el)
    cont = el.continuity
    for i in todo:
        d = dofs[i]
        cls = type(d).__name__
        m = derivs(d)
        ed, en = where[i]
        evs = whole.sub(ed, en).verts
        if not all(isinstance(c, Fraction) for v in evs for c in v):
            continue
        fs = forms(evs, g)
        if ed < t:
            f = parse(shape, lambda: vanishing(r, fs, xs, m))
            if not zero(ctx, tag, i, d, f, "vanishing", "sees a function that vanishes on its entity"):
                return
        if cls in POINTS:
            p = d.dof_point()
            p = None if any(c is None for c in p) else [rational(c) for c in p]
            if p is not None and None not in p:
                pf = forms([p], g)
                f = parse(shape, lambda: vanishing(r, pf, xs, m))
                if not zero(ctx, tag, i, d, f, "point", "sees a function that vanishes at its point"):
                    return
        if name in PURE.get(cont, ()) and 0 < ed < t and shape == g and cls not in DERIVS:
            tang = [[a - b for a, b in zip(v, evs[0])] for v in evs[1:]]
            if cont == "H(div)" and ed == t - 1:
                f = combo(r, tang, xs, g)
                if not zero(ctx, tag, i, d, f, "trace", "sees a function with zero normal trace on its facet"):
                    return
            if cont == "H(curl)":
                f = combo(r, spaces.nullspace([list(map(Fraction, v)) for v in tang], g), xs, g)
                if not zero(ctx, tag, i, d, f, "trace", "sees a function with zero tangential trace on its entity"):
                    return
        dr = d.dof_direction()
        if dr is not None and cls in ONE_DIRECTION:
            direction(ctx, tag, i, d, dr, shape, xs, g, r)


def direction(ctx, tag, i, d, dr, shape, xs, g, r):
    from symfem.functions import parse_function_input

    k = next((j for j, c in enumerate(dr) if not O.is_zero(O.num(c))), None)
    if not ctx.expect(k is not None, "direction", f"zero-direction:{tag}", f"the direction of DOF {i} is zero", key=f"{tag}|{i}"):
        return
    v = [rational(c / dr[k]) for c in dr]
    if None in v or len(v) != g or g == 1:
        return
    across = perp(v)
    why = "sees a function across its direction"
    if shape is None:  # constant along the direction
        ls = [lin((a, Fraction(0)), xs) for a in across]
        f = parse_function_input(sum((r.randint(1, 9) * u**e for u in ls for e in (1, 2, 3)), sympy.Integer(1)))
    elif shape == g:
        f = combo(r, across, xs, g)
    elif shape == (g, g):
        # v^T M v = 0: symmetric products of v with vectors across it, and across x across
        M = sympy.zeros(g, g)
        V = sympy.Matrix([O.sp(c) for c in v])
        for a in across:
            A = sympy.Matrix([O.sp(c) for c in a])
            M += rpoly(r, xs) * (V * A.T + A * V.T) + rpoly(r, xs) * A * A.T
        f = parse_function_input(M)
    else:
        return
    zero(ctx, tag, i, d, f, "direction", why)


def traces(ctx, tag, el, cell, verts, where, name, r):
    cont = p04.STRONGER.get(name, el.continuity)
    if "{order}" in cont:
        cont = cont.replace("{order}", str(el.order))
    t = O.TDIM[cell]
    if cont == "L2" or t < 1 or cont == "integral inner H(div)":
        ctx.seen("declares no trace", tag)
        return
    basis = [fem.read(f) for f in el.get_basis_functions()]
    for fn, fvs in enumerate(O.sub_entities(cell, t - 1)):
        fv = [verts[j] for j in fvs]
        fc = fem.Cell(O.entity_type(t - 1, len(fv)), fv)
        away = [i for i in range(len(basis)) if not set(O.sub_entities(cell, where[i][0])[where[i][1]]) <= set(fvs)]
        for _ in range(1 if len(basis) > 30 else 2):
            p = O.affine_point(fc.o, fc.axes, O.rand_point_in(r, fc.name, 24) if t > 1 else [])
            for i in away:
                try:
                    v = p04.tr(cont, basis[i], p, fv, t)
                except fem.OutOfModel as e:
                    ctx.skip(str(e))
                    continue
                ctx.expect(
                    all(not isinstance(c, str) and O.is_zero(c) for c in v), "zero-trace", f"trace:{tag}:{where[i][0]}",
                    f"basis function {i} belongs to {where[i]} but has a trace on facet {fn}", got=v, key=f"{tag}|{i}|{fn}",
                )  # fmt: skip
