"""P23: TeX and text output denotes the object it came from."""

import random

from harness import catalogue, deep, fem, gen, tex
from harness import oracle as O
from harness.core import Case

PROPERTY = "P23"
TECHNIQUE = (
    "runtime monitor: every emitted TeX string is parsed by an independent reader and its mathematical "
    "meaning compared with the object it came from"
)
RULE = (
    "function cases: random scalar, vector, matrix and piecewise functions, functions with surds, "
    "rational functions and basis functions of elements; as_tex (and repr) is read and evaluated at "
    "random points, for piecewise functions also which piece is named where. element cases: every DOF "
    "of every catalogue element (reference cell and a user cell): get_tex is read, its entities, unit "
    "vectors and ordinals resolved through the definitions it lists, and evaluated on random "
    "polynomials against the DOF. functional cases: functionals with random data on random entities. "
    "Distinct = class x cell x entity x form, judged values."
)
ASSUMPTIONS = [
    "t_{i} are the coordinates in the frame of the entity integrated over (symfem's convention)",
    "an integral is with respect to the measure of the entity",
]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 300}
FLOOR = 1500


def cases(tier, seed):
    rng = random.Random(f"p23/{seed}")
    out = []
    quick = tier == "quick"
    for k in range(16 if quick else 120):
        out.append(Case(f"functions/{k}", "functions", [rng.randint(0, 10**9), 12], cost=1))
    from checks import p02

    for cls, kinds in p02.CLASSES.items():
        for cell in p02.CELLS:
            t = O.TDIM[cell]
            if cls == "PointNormalDerivativeEvaluation" and t != 2:
                continue
            if t == 1 and ("Normal" in cls or kinds in ("v", "m")):
                continue
            if cls == "BernsteinFunctional" and cell not in ("interval", "triangle", "tetrahedron"):
                continue
            for kind in kinds:
                if t == 1 and kind in "vm":
                    continue
                for nd in (0, 1):
                    if nd and cls == "BernsteinFunctional":
                        continue
                    out.append(
                        Case(
                            f"{cls}/{cell}/{kind}/{'affine' if nd else 'ref'}", "functionals",
                            [cls, cell, kind, nd, rng.randint(0, 10**9), 4 if quick else 20],
                            cost=3 if t == 3 else 1,
                        )
                    )  # fmt: skip
    out.append(Case("ordinals", "ordinals", [], cost=1))
    items = catalogue.thin(catalogue.select(1.5 if quick else 12), 170 if quick else 1500, seed)
    items += catalogue.kept(4 if quick else 12, items)
    n = 10 if quick else 60
    for label, cell, name, kw, order, cost, dim in items:
        out.append(Case(f"element/{label}", "element", [cell, name, kw, order, rng.randint(0, 10**9), n], cost=cost * 2))
    for cell, name, kw, order in deep.orders(1.5 if quick else 12, 1 if quick else 3):
        label = catalogue.label(cell, name, kw, order)
        out.append(
            Case(f"element/deep/{label}", "element", [cell, name, kw, order, rng.randint(0, 10**9), n, 56 if quick else 150], cost=3)
        )
    return out


# -- functions -------------------------------------------------------------------------------------
def env_at(p):
    return {n: c for n, c in zip("xyz", p)}


def same(a, b):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(i, j) for i, j in zip(a, b))
    return O.close(a, b, 1e-25)


def read_tex(ctx, s, what):
    if not ctx.expect(tex.balanced(s), "wellformed", what, "TeX is not well formed", tex=s):
        return None
    try:
        return tex.parse(s)
    except tex.Bad as e:
        ctx.violate(f"{what}:unreadable", f"TeX cannot be read: {e}: {s}")
        return None


def tex_value(ctx, ast, p, what, s):
    try:
        return tex.numbers(tex.ev(ast, env_at(p)))
    except tex.Bad as e:
        ctx.violate(f"{what}:meaning", f"TeX has no meaning: {e}: {s}")
        return None


def judge_function(ctx, f, pieces, t, pts, what, key):
    """as_tex and repr of a symfem function against the oracle's reading of its pieces."""
    s = f.as_tex()
    if not isinstance(s, str):
        ctx.violate(what, "as_tex is not a string")
        return
    if pieces[0][0] is None:
        ast = read_tex(ctx, s, what)
        if ast is None:
            return
        for p in pts:
            want = fem.value(pieces[0][1], p)
            got = tex_value(ctx, ast, p, what, s)
            if got is None:
                return
            ctx.expect(same(got, want), "value", what, "value of the TeX", key=key, got=got, want=want, tex=s, point=p)
        return
    if not ctx.expect(tex.balanced(s), "wellformed", what, "TeX is not well formed", tex=s):
        return
    try:
        q = tex.P(s)
        rows = q.cases()
        if not q.done():
            raise tex.Bad("text after cases")
    except tex.Bad as e:
        ctx.violate(f"{what}:unreadable", f"TeX cannot be read: {e}: {s}")
        return
    if not ctx.expect(len(rows) == len(pieces), "pieces", what, "number of cases", key=key, tex=s):
        return
    named = []
    for ast, name, vs in rows:
        while len(vs) == 1 and isinstance(vs[0], list):
            vs = vs[0]
        cell = {1: {2: "interval"}, 2: {3: "triangle", 4: "quadrilateral"}, 3: {4: "tetrahedron"}}[t].get(len(vs))
        ctx.expect(
            cell is not None and name == cell.capitalize(),
            "shape",
            what,
            "name of the shape of a piece",
            got=name,
            want=cell,
            key=key,
        )
        named.append((ast, cell, [tuple(v) for v in vs]))
    for vs, comps in pieces:
        hit = [n for n in named if len(n[2]) == len(vs) and all(O.close(a, b) for v, w in zip(n[2], vs) for a, b in zip(v, w))]
        if not ctx.expect(len(hit) == 1, "piece", what, "pieces named in the TeX", tex=s, piece=vs, key=key):
            continue
        for p in pts[:2]:
            got = tex_value(ctx, hit[0][0], p, what, s)
            if got is None:
                return
            want = fem.value(comps, p)
            ctx.expect(same(got, want), "value", what, "value of the TeX of a piece", key=key, got=got, want=want, tex=s)


def judge_repr(ctx, f, pieces, t, pts, what, key):
    """repr/str is text that sympy reads back to the same function."""
    import sympy

    loc = {n: sympy.Symbol(n) for n in "xyz"}
    for fn in (repr, str):
        s = fn(f)
        if pieces[0][0] is not None:
            ctx.expect(isinstance(s, str) and s, "repr", what, "text of a piecewise function")
            continue
        try:
            e = sympy.sympify(s, locals=loc)
        except Exception as x:  # noqa: BLE001
            ctx.violate(f"{what}:{fn.__name__}", f"{fn.__name__} cannot be read: {x!r}: {s}")
            continue
        comps = fem.read_plain(e if not isinstance(e, sympy.Tuple) else tuple(e))
        for p in pts[:2]:
            ctx.expect(
                same(fem.value(comps, p), fem.value(pieces[0][1], p)),
                fn.__name__,
                f"{what}:{fn.__name__}",
                "value of the text",
                text=s,
                key=key,
            )


def surd(r):
    import sympy

    a = sympy.Rational(r.randint(-7, 7), r.randint(1, 7))
    return a * sympy.sqrt(r.choice([2, 3, 5, 6, sympy.Rational(2, 3), sympy.Rational(7, 5)]))


def special_scalar(r, t):
    """Sympy expressions outside the rational polynomials."""
    import sympy

    xs = sympy.symbols("x y z")[:t]
    p = gen.to_sym(O.rand_poly(r, t, 3, 3))
    q = gen.to_sym(O.rand_poly(r, t, 2, 3))
    k = r.randrange(7)
    if k == 0:
        return surd(r) * p + surd(r) * q + surd(r)
    if k == 1:  # rational function without poles near the points
        return p / (1 + sum(x**2 for x in xs)) + q
    if k == 2:
        return p * (sympy.sqrt(1 + xs[0] ** 2) + surd(r))
    if k == 3:
        return sympy.sin(q) + p * sympy.cos(xs[-1]) ** 2
    if k == 4:
        return (p + surd(r)) * (q - 1) * (xs[0] - sympy.Rational(1, 3)) ** r.randint(2, 12)
    if k == 5:
        return -p + 10 ** r.randint(2, 12) * q / 7 - sympy.Rational(1, 12345) * xs[0]
    return sympy.Rational(r.randint(-9, 9), r.randint(1, 9)) + surd(r)


def functions(ctx, fseed, n):
    import symfem
    from symfem.functions import parse_function_input

    r = random.Random(fseed)
    for _ in range(n):
        t = r.randint(1, 3)
        kind = r.choice("ssvm") if t > 1 else r.choice("sssv")
        form = r.choice(["plain", "plain", "piecewise", "lazy", "special", "wide", "pw-quad"])
        cell = {1: "interval", 2: "triangle", 3: "tetrahedron"}[t]
        if form == "special":
            if kind == "s":
                raw = special_scalar(r, t)
            elif kind == "v":
                raw = tuple(special_scalar(r, t) for _ in range(t))
            else:
                raw = tuple(tuple(special_scalar(r, t) for _ in range(t)) for _ in range(t))
            F = gen.Fun(raw, None, form)
            f = parse_function_input(raw)
            F.pieces = fem.read(f)
        elif form == "wide":
            kind = r.choice("vm")
            shape = (r.randint(1, 4), r.randint(1, 4))
            F = gen.rand_fun(r, t, kind, form="raw", shape=shape)
            f = parse_function_input(F.sym)
        elif form == "pw-quad" and t == 2:
            F = gen.rand_fun(r, 2, kind, form="piecewise", cell="quadrilateral")
            f = parse_function_input(F.sym)
        else:
            if form == "pw-quad":
                form = "plain"
            A, b, vs = O.rand_affine_cell(r, cell)
            F = gen.rand_fun(r, t, kind, deg=3, form=form, cell=cell, verts=r.choice([None, vs]))
            f = parse_function_input(F.sym)
        pts = [O.rand_point_in(r, cell) for _ in range(3)]
        what = f"as_tex:{type(f).__name__}"
        key = f"{type(f).__name__}|{form}|{t}|{fseed}"
        judge_function(ctx, f, F.pieces, t, pts, what, key)
        judge_repr(ctx, f, F.pieces, t, pts, what, key)
        if form in ("plain", "lazy") and kind == "s":  # local coordinates too
            g = f.subs(symfem.symbols.x, symfem.symbols.t)
            ast = read_tex(ctx, g.as_tex(), what)
            if ast is not None:
                p = pts[0]
                try:
                    got = tex.numbers(tex.ev(ast, {f"t{i}": c for i, c in enumerate(p)}))
                except tex.Bad as e:
                    ctx.violate(f"{what}:meaning", f"TeX has no meaning: {e}: {g.as_tex()}")
                    continue
                ctx.expect(same(got, fem.value(F.pieces[0][1], p)), "value", what, "TeX in local coordinates", key=key)


# -- functionals ---------------------------------------------------------------------------------------
def lift(f):
    """nested Poly in t variables -> value in the six variables of tex"""
    if isinstance(f, list):
        return [lift(i) for i in f]
    return O.Poly(6, {tuple(list(k) + [0] * (6 - len(k))): v for k, v in f.c.items()})


def kind_of(dof):
    n = type(dof).__name__
    if n in ("PointInnerProduct", "InnerProductIntegralMoment", "NormalInnerProductIntegralMoment"):
        return "m"
    if n in ("PointDivergenceEvaluation", "IntegralOfDivergenceAgainst", "TangentIntegralMoment",
             "NormalIntegralMoment", "DivergenceIntegralMoment"):  # fmt: skip
        return "v"
    if n == "DotPointEvaluation":
        return "m" if dof.vector.is_matrix else "v" if dof.vector.is_vector else "s"
    if n in ("IntegralAgainst", "IntegralMoment"):
        return "m" if dof.f.is_matrix else "v" if dof.f.is_vector else "s"
    return "s"


def order_of(dof):
    if hasattr(dof, "derivative"):
        return sum(dof.derivative)
    if hasattr(dof, "orders"):
        return sum(dof.orders)
    return 2


def value_of(dof, f):
    from symfem.functions import parse_function_input

    return O.num(dof.eval(parse_function_input(gen.to_sym(f))).as_sympy())


def judge_dof(ctx, dof, C, r, key, evals=1):
    """One DOF: read its TeX and compare its meaning with the DOF."""
    name = type(dof).__name__
    mech = f"{name}:{C.name}"
    got = dof.get_tex()
    if not ctx.expect(
        isinstance(got, tuple) and len(got) == 2 and isinstance(got[0], str) and all(isinstance(i, str) for i in got[1]),
        "form",
        mech,
        "get_tex returns a string and a list of terms",
    ):
        return
    s, terms = got
    if not ctx.expect(tex.balanced(s) and all(tex.balanced(i) for i in terms), "wellformed", mech, "TeX is not well formed", tex=s):
        return
    if name == "BernsteinFunctional":
        return bernstein(ctx, dof, C, s, terms, mech, key)
    if not ctx.expect(s.count("\\mapsto") == 1, "mapsto", mech, "TeX is a map", tex=s):
        return
    head, body = s.split("\\mapsto")
    try:
        ents, units = tex.definitions(terms, C)
        h = tex.parse(head)
        ast = tex.parse(body)
    except tex.Bad as e:
        ctx.violate(f"{mech}:unreadable", f"TeX of a DOF cannot be read: {e}: {s} {terms}")
        return
    syms = tex.symbols(ast)
    ctx.expect(
        h[0] == "v" and {i[1] for i in syms if i[0] == "v"} == {h[1]},
        "function",
        mech + ":function",
        "the function being mapped is the one in the body",
        tex=s,
        key=f"{key}|{name}",
    )
    for i in syms:
        ok = i[0] == "v" or (i[0] == "ent" and i[1] in ents) or (i[0] == "unit" and i[1:] in units)
        ctx.expect(ok, "defined", mech + ":defined", f"symbol {i} is not defined", tex=s, terms=terms)
        if not ok:
            return
    kind = kind_of(dof)
    t = C.tdim
    # the functional's own ingredients (not the TeX) fix the degree of the test functions
    deg = max(2, order_of(dof) + 1)
    for _ in range(evals):
        if kind == "s":
            f = O.rand_poly(r, t, deg, 5)
            if deg > 3:  # make sure high derivatives do not vanish
                k = getattr(dof, "derivative", None)
                if k is not None:
                    f = f + O.Poly.mono(tuple(k), O.F1 * r.randint(1, 5))
                else:
                    f = f + sum((O.Poly.var(t, i) * r.randint(-3, 4) for i in range(t)), O.Poly.const(t, O.F1)) ** deg
        elif kind == "v":
            f = [O.rand_poly(r, t, deg, 3) for _ in range(t)]
        else:
            f = [[O.rand_poly(r, t, deg, 2) for _ in range(t)] for _ in range(t)]
        env = {f"t{i}": O.Poly.var(6, 3 + i) for i in range(3)}
        env.update({c: O.Poly.var(6, i) for i, c in enumerate("xyz"[:t])})  # the point that is integrated over
        env.update({"v": tex.from_comps(lift(f)), "cell": C, "ents": ents, "units": units, "gdim": t})
        try:
            v = tex.numbers(tex.ev(ast, env))
            if isinstance(v, list):
                raise tex.Bad("the value is not a number")
        except tex.Bad as e:
            ctx.violate(f"{mech}:meaning", f"TeX of a DOF has no meaning: {e}: {s}")
            return
        want = value_of(dof, f)
        ctx.expect(
            O.close(v, want, 1e-25), "dof", mech, "value of the TeX of a DOF", got=v, want=want, tex=s,
            terms=terms, key=f"{key}|{name}|{dof.entity}", entity=dof.entity,
        )  # fmt: skip


def bernstein(ctx, dof, C, s, terms, mech, key):
    import re

    m = re.fullmatch(r"v\\mapsto c(?:\^\{(.*?)\})?_\{(\d+)\}", s)
    if not ctx.expect(m is not None, "bernstein", mech, "TeX of a Bernstein DOF", tex=s):
        return
    e, n = m.group(1), int(m.group(2))
    sub = C.sub(*dof.entity)
    count = O.binom(dof.degree + sub.tdim, sub.tdim)
    on = "the cell" if e is None else rf"\({e}\)"
    up = "" if e is None else f"^{{{e}}}"
    want = [
        rf"\(v=\sum_ic{up}_iB{up}_i\)",
        rf"\(B{up}_1\) to \(B{up}_n\) are the degree {dof.degree} Bernstein polynomials on {on}",
    ]
    rest = [i for i in terms if i not in want]
    ctx.expect(all(i in terms for i in want), "terms", mech + ":terms", "terms of a Bernstein DOF", got=terms, want=want)
    if e is None:
        ctx.expect(dof.entity[0] == C.tdim and not rest, "entity", mech, "Bernstein DOF of the cell", terms=terms)
    else:
        try:
            ents, _ = tex.definitions(rest, C)
        except tex.Bad as x:
            ctx.violate(mech + ":terms", f"terms cannot be read: {x}")
            return
        ctx.expect(
            ents == {e.replace(" ", ""): tuple(dof.entity)},
            "entity",
            mech,
            "entity of a Bernstein DOF",
            terms=terms,
            key=f"{key}|{dof.entity}",
        )
    if not ctx.expect(1 <= n <= count, "index", mech, "coefficients are numbered from 1", tex=s):
        return
    # the polynomial with that number: the functional is its coefficient
    B = fem.bernstein_basis(dof.degree, sub.tdim)
    back = fem.local_coords(sub, [O.Poly.var(C.tdim, i) for i in range(C.tdim)])
    k = [value_of(dof, b.compose(back)) for b in (B if sub.tdim > 1 else [B[n - 1], B[-n]])]
    if sub.tdim == 1:
        good = O.close(k[0], O.F1) or O.close(k[1], O.F1)
    else:
        good = sum(O.close(i, O.F1) for i in k) == 1 and sum(O.is_zero(i) for i in k) == len(k) - 1
    ctx.expect(good, "coefficient", mech, "the functional is the coefficient with the number in its TeX", tex=s, values=k,
               key=f"{key}|{dof.entity}|{n}")  # fmt: skip


def functionals(ctx, cls, cell, kind, nd, fseed, reps):
    import symfem

    from checks import p02

    r = random.Random(fseed)
    for _ in range(reps):
        if nd:
            A, b, vs = O.rand_affine_cell(r, cell)
            ref = symfem.create_reference(cell, tuple(O.spt(v) for v in vs))
        else:
            ref = symfem.create_reference(cell)
        C = fem.Cell(cell, ref.vertices)
        try:
            d = p02.make(r, cls, cell, kind, ref, C, nd)
        except NotImplementedError:
            ctx.skip(f"refused: {cls} on {'affine' if nd else 'reference'} {cell}")
            continue
        try:
            judge_dof(ctx, d, C, r, f"{cell}|{nd}")
        except fem.OutOfModel as e:
            ctx.skip(str(e))


def element(ctx, cell, name, kw, order, fseed, limit, top=None):
    """top: the order is too high for the basis functions; largest dimension."""
    import symfem

    r = random.Random(fseed)
    el = symfem.create_element(cell, name, order, **kw) if top is None else deep.element(cell, name, kw, order, top)
    if not hasattr(el, "dofs"):
        ctx.skip("element without DOFs")
        return
    C = fem.Cell.of(el.reference)
    dofs = list(el.dofs)
    # one of each class and entity first, then at random
    seen, first, rest = set(), [], []
    for d in r.sample(dofs, len(dofs)):
        k = (type(d).__name__, d.entity[0])
        (rest if k in seen else first).append(d)
        seen.add(k)
    todo = (first + rest)[:limit]
    for d in todo:
        try:
            judge_dof(ctx, d, C, r, f"{cell}|{name}|{order}|{kw}")
        except fem.OutOfModel as e:
            ctx.skip(str(e))
    # different functionals are described differently
    if len(dofs) <= 60:
        forms = [d.get_tex()[0] + "".join(d.get_tex()[1]) for d in dofs]
        ctx.expect(
            len(set(forms)) == len(forms),
            "distinct",
            f"distinct:{name}",
            "two DOFs of an element have the same TeX",
            repeated=[f for f in forms if forms.count(f) > 1][:2],
            key=f"{cell}|{name}|{order}|{kw}",
        )
    if top is None and el.space_dim <= 40 and r.random() < 0.5:
        fs = el.get_basis_functions()
        k = r.randrange(len(fs))
        pts = [O.rand_point_in(r, cell) for _ in range(2)]
        f = fs[k]
        try:
            pieces = fem.read(f)
            judge_function(ctx, f, pieces, C.tdim, pts, f"as_tex:basis:{name}", f"{cell}|{name}|{order}")
        except fem.OutOfModel as e:
            ctx.skip(str(e))


def ordinals(ctx):
    """DOFs on entities with large numbers (reference cells have at most 12 edges)."""
    import symfem
    from symfem import functionals as fl

    for cell in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"):
        ref = symfem.create_reference(cell)
        for d in range(ref.tdim + 1):
            for n in range(len(O.sub_entities(cell, d))):
                dof = fl.PointEvaluation(ref, tuple(0 for _ in range(ref.tdim)), entity=(d, n))
                if d == ref.tdim:
                    want = ["R", "\\(R\\) is the reference element"]
                else:
                    s = f"{'vefc'[d]}_{{{n}}}"
                    want = [s, f"\\({s}\\) is the {tex.ordinal(n)} {['vertex', 'edge', 'face', 'volume'][d]}"]
                ctx.expect(
                    [dof.entity_tex(), dof.entity_definition()] == want, "entity", f"entity:{cell}",
                    "name and definition of an entity", got=[dof.entity_tex(), dof.entity_definition()], want=want,
                    key=f"{cell}|{d}|{n}",
                )  # fmt: skip
