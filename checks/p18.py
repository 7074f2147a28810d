"""P18: tabulation equals evaluation of the basis functions."""

import random
from fractions import Fraction

import sympy

from harness import catalogue as C
from harness import fem
from harness import oracle as O
from harness.core import Case

PROPERTY = "P18"
TECHNIQUE = "runtime monitor: every entry of every returned table against an independent evaluation of the basis functions"
RULE = (
    "One case = one element, several sets of points (rational, on vertices and edges, irrational, float, symbolic, outside the cell, one, "
    "many, repeated, none) given as lists, tuples, sympy matrices or numpy arrays, in every documented order. The monitor evaluates the "
    "basis functions itself, exactly, and compares position by position. Distinct = element x set of points x order x entry."
)
ASSUMPTIONS = ["floats are compared with a tolerance relative to the largest value and coefficient"]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 400}
FLOOR = 20000

ORDERS = ["xyzxyz", "xyz,xyz", "xxyyzz", "xx,yy,zz"]
BAD = ["", "xyz", "xyzxyz ", "XYZXYZ", "xy,zz", "xxyyz", "xyz, xyz", "zyxzyx", "x"]


def cases(tier, seed):
    rng = random.Random(f"p18/{seed}")
    items = C.select(1.5 if tier == "quick" else 12)
    items += C.breadth(3 if tier == "quick" else 20, items)
    chosen = C.thin(items, 22 if tier == "quick" else 300, seed, factor=3)
    out = []
    for it in chosen:
        out.append(Case(f"table/{it[0]}", "table", [it[1], it[2], it[3], it[4], rng.randint(0, 10**9)], 3 * it[5] + 0.2))
    return out


def inside(r, cell, verts):
    """A rational point inside the cell."""
    w = [r.randint(1, 9) for _ in verts]
    return [sum(Fraction(a) * Fraction(v[i]) for a, v in zip(w, verts)) / sum(w) for i in range(len(verts[0]))]


def corners(ref):
    out = []
    for v in ref.vertices:
        p = []
        for c in v:
            if not c.is_Rational:
                return None
            p.append(Fraction(int(c.p), int(c.q)))
        out.append(p)
    return out


def flatten(v):
    """The numbers in one returned value, row by row."""
    if isinstance(v, sympy.MatrixBase):
        return list(v)
    if isinstance(v, (tuple, list, sympy.Tuple)):
        return [x for y in v for x in flatten(y)]
    return [v]


def expected(vals, order, scalar):
    """The nested list the order describes; vals[i] = numbers of function i."""
    if scalar:
        return [v[0] for v in vals]
    n = len(vals[0])
    if order == "xyz,xyz":
        return [list(v) for v in vals]
    if order == "xyzxyz":
        return [c for v in vals for c in v]
    if order == "xxyyzz":
        return [v[k] for k in range(n) for v in vals]
    return [[v[k] for v in vals] for k in range(n)]


def compare(ctx, got, want, same):
    """Position by position; the number of agreeing entries, or where they differ."""
    if isinstance(want, list):
        if isinstance(got, sympy.MatrixBase):
            got = list(got)
        if not isinstance(got, (tuple, list, sympy.Tuple)):
            return f"{got!r} where a row of {len(want)} was expected"
        got = list(got)
        if len(got) != len(want):
            return f"{len(got)} entries instead of {len(want)}"
        for k, (a, b) in enumerate(zip(got, want)):
            bad = compare(ctx, a, b, same)
            if bad:
                return f"[{k}] {bad}"
        return None
    if isinstance(got, (tuple, list, sympy.MatrixBase)):
        return f"{got!r} where a number was expected"
    if not same(got, want):
        return f"{got} instead of {want}"
    return None


def exact(a, b):
    try:
        return O.close(O.num(sympy.S(a)), b)
    except O.NotAValue:
        return False


def table(ctx, cell, name, kw, order, seed):
    import symfem

    r = random.Random(seed)
    label = C.label(cell, name, kw, order)
    e = symfem.create_element(cell, name, order, **kw)
    ref = e.reference
    if hasattr(e, "dofs"):
        import numpy

        m = e.get_dual_matrix(caching=False)
        a = numpy.array([[float(x) for x in m.row(i)] for i in range(m.rows)])
        if m.rows == 0 or m.rows != m.cols or numpy.linalg.matrix_rank(a) < m.rows:
            ctx.skip("no basis")
            return
    funcs = [fem.read(f) for f in e.get_basis_functions()]
    piecewise = any(p[0][0] is not None for p in funcs)
    scalar = e.range_dim == 1
    ctx.expect(len(funcs) == e.space_dim, "number of functions", "wrong number of basis functions", label, key=label)
    verts = corners(ref)
    tdim = ref.tdim
    generic = [[Fraction(3, 17), Fraction(2, 13), Fraction(5, 31)][:tdim], [Fraction(1, 19), Fraction(4, 23), Fraction(3, 29)][:tdim]]
    if verts is None:
        near = [[float(c) for c in v] for v in ref.vertices]
        verts = [[Fraction(c).limit_denominator(1000) * Fraction(99, 100) for c in v] for v in near]
        corner_points = []
    else:
        corner_points = verts

    sets = [("inside", [inside(r, cell, verts) for _ in range(3)]), ("one", [inside(r, cell, verts)])]
    p = inside(r, cell, verts)
    sets.append(("repeated", [p, inside(r, cell, verts), p]))
    if corner_points:
        sets.append(("corners", r.sample(corner_points, min(2, len(corner_points)))))
        a, b = r.sample(corner_points, 2)
        sets.append(("edges", [[(x + 2 * y) / 3 for x, y in zip(a, b)]]))
    sets.append(("none", []))
    if not piecewise:
        sets.append(("outside", [[c * r.randint(-3, 5) + 1 for c in generic[0]]]))
    for what, points in sets:
        orders = ORDERS if what == "inside" else [r.choice(ORDERS), None]
        for o in orders:
            visit(ctx, r, label, e, funcs, points, what, o, scalar, tdim)
    floats(ctx, r, label, e, funcs, [inside(r, cell, verts) for _ in range(2)], scalar, tdim)
    if not piecewise:
        symbols(ctx, r, label, e, funcs, [generic[1]], scalar, tdim)
    bad = r.choice(BAD)
    for o in (bad, 7 if r.random() < 0.2 else bad + "?"):
        try:
            got = e.tabulate_basis(give(r, [generic[0]], tdim) if not piecewise else [inside(r, cell, verts)], o)
            ctx.violate("an unknown order is accepted", f"{label}: {o!r}: {str(got)[:200]}")
        except ValueError:
            ctx.seen("unknown order refused", (label, o))


def give(r, points, tdim):
    """The points in one of the accepted forms."""
    rows = [[sympy.Rational(c.numerator, c.denominator) if isinstance(c, Fraction) else c for c in p] for p in points]
    kind = r.randrange(6)
    if kind == 0:
        return [tuple(p) for p in rows]
    if kind == 1:
        return tuple(tuple(p) for p in rows)
    if kind == 2:
        return [list(p) for p in rows]
    if kind == 3:
        return [sympy.Matrix([p]) for p in rows]
    if kind == 4:
        return [sympy.Matrix(p) for p in rows]
    return [tuple(Fraction(int(c.p), int(c.q)) if isinstance(c, sympy.Rational) else c for c in p) for p in rows]


def evaluate(funcs, p, tdim):
    """[candidate flat values] of each function; more than one candidate on the pieces' common boundary."""
    return [[fem.flatv(v) for v in fem.values_at(f, p, tdim)] for f in funcs]


def visit(ctx, r, label, e, funcs, points, what, order, scalar, tdim):
    given = give(r, points, tdim)
    got = e.tabulate_basis(given, order) if order is not None else e.tabulate_basis(given)
    o = order or "xyzxyz"
    if not ctx.expect(
        len(got) == len(points), "rows", "wrong number of rows", f"{label} {what} {o}: {len(got)} for {len(points)}", key=(label, what, o)
    ):
        return
    for row, p in zip(got, points):
        try:
            vals = evaluate(funcs, p, tdim)
        except fem.OutOfModel:
            ctx.seen("points where a formula divides by zero", label)
            continue
        if any(len(v) == 0 for v in vals):
            ctx.seen("points outside every piece", label)
            continue
        want = expected([v[0] for v in vals], o, scalar)
        bad = compare(ctx, row, want, exact)
        if bad and any(len(v) > 1 for v in vals):
            # on a common boundary the value of any adjacent piece will do
            pieces = max(len(v) for v in vals)
            for k in range(1, pieces):
                bad = bad and compare(ctx, row, expected([v[k % len(v)] for v in vals], o, scalar), exact)
        ctx.expect(not bad, f"row ({o})", f"wrong table ({o})", f"{label} at {p} ({what}): {bad}", key=(label, what, o, str(p)))
        ctx.seen("entries compared", (label, what, o), n=sum(len(v[0]) for v in vals))


def floats(ctx, r, label, e, funcs, points, scalar, tdim):
    """Float points, and the float table."""
    near = [[float(c) for c in p] for p in points]
    back = [[Fraction(c) for c in p] for p in near]
    values = [[[fem.flatv(v) for v in fem.values_at(f, p, tdim)] for f in funcs] for p in back]
    if any(len(v) != 1 for row in values for v in row):
        return
    biggest = max([1.0] + [abs(float(c)) for row in values for v in row for c in v[0]])
    biggest = max(biggest, coefficient(e))
    close = lambda a, b: is_number(a) and abs(complex(sympy.S(a)) - float(b)) <= 1e-9 * biggest
    given = [tuple(p) for p in near]
    form = r.randrange(3)
    if form == 1:
        given = [list(p) for p in near]
    elif form == 2:
        import numpy

        given = numpy.array(near)
    for o in (r.choice(ORDERS), "xyzxyz"):
        got = e.tabulate_basis(given, o)
        for row, v, p in zip(got, values, near):
            bad = compare(ctx, row, expected([w[0] for w in v], o, scalar), close)
            ctx.expect(
                not bad, "row at float points", "wrong table at float points", f"{label} at {p} ({o}): {bad}", key=(label, o, str(p))
            )
    exact_points = [[sympy.Rational(c.numerator, c.denominator) for c in p] for p in back]
    for what, pts in (("float", given), ("rational", exact_points)):
        got = e.tabulate_basis_float(pts)
        again = e.tabulate_basis_float(pts)
        ctx.expect(len(got) == len(back), "float rows", "wrong number of rows of floats", label, key=label)
        for row, row2, v, p in zip(got, again, values, near):
            bad = compare(ctx, row, expected([w[0] for w in v], "xyz,xyz", scalar), close)
            ctx.expect(
                not bad, f"float table ({what} points)", "wrong table of floats", f"{label} at {p}: {bad}", key=(label, what, str(p))
            )
            ctx.expect(
                str(row) == str(row2), "float table again", "another table of floats the second time", f"{label} at {p}", key=(label, what)
            )


def is_number(a):
    try:
        complex(sympy.S(a))
        return True
    except (TypeError, ValueError):
        return False


def coefficient(e):
    """The largest coefficient of a basis function: cancellation is relative to it."""
    big = 1.0
    for f in e.get_basis_functions():
        fs = f.get_function() if hasattr(f, "get_function") else f
        parts = list(fs.pieces.values()) if getattr(fs, "pieces", None) is not None else [fs]
        for g in parts:
            for c in flatten(g.as_sympy()):
                c = sympy.S(c)
                try:
                    t = sympy.Poly(c, *[sympy.Symbol(n) for n in "xyz"])
                    big = max([big] + [abs(float(k)) for k in t.coeffs()])
                except (sympy.PolynomialError, TypeError):
                    big = max(big, 1e3)
    return big


def symbols(ctx, r, label, e, funcs, at, scalar, tdim):
    """Symbolic points: the table, with values put in, is the table of the values."""
    names = r.choice([["p", "q", "s"], ["y", "z", "x"], ["x", "y", "z"], ["a", "a", "a"]])[:tdim]
    pt = tuple(sympy.Symbol(n) + (0 if r.random() < 0.5 else sympy.Rational(1, 3)) for n in names)
    vals = {sympy.Symbol(n): sympy.Rational(1, 3 + k) for k, n in enumerate(dict.fromkeys(names))}
    point = [c.subs(vals) for c in pt]
    point = [Fraction(int(c.p), int(c.q)) for c in point]
    o = r.choice(ORDERS)
    got = e.tabulate_basis([pt], o)
    v = [fem.flatv(fem.values_at(f, point, tdim)[0]) for f in funcs]
    close = lambda a, b: exact(sympy.S(a).subs(vals), b)
    bad = compare(ctx, got[0], expected(v, o, scalar), close)
    ctx.expect(
        len(got) == 1 and not bad,
        "row at a symbolic point",
        "wrong table at a symbolic point",
        f"{label} at {pt} ({o}): {bad}",
        key=(label, o, str(pt)),
    )
