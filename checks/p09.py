"""P09: arithmetic, indexing, iteration, equality and substitution of functions are pointwise."""

import operator
import random
from fractions import Fraction

from harness import fem, gen
from harness import oracle as O
from harness.core import Case

PROPERTY = "P09"
TECHNIQUE = "runtime monitor: random programs over symfem functions, every intermediate value compared with pointwise exact arithmetic"
RULE = (
    "One case = a random program of 4 to 8 operations over scalar, vector, matrix, piecewise and lazy functions and raw "
    "Python/sympy operands in 1 to 3 variables; after every operation the result is read structurally and evaluated (also "
    "through subs) at random points and must equal the operation on the operands' values; the operands' expressions must be "
    "unchanged. Directed cases cover reflected operators, shapes, iteration, equality and substitution. "
    "Distinct = operation x forms of the operands x kind."
)
ASSUMPTIONS = [
    "Python floats, float powers and products of raw matrices with @ are refused by symfem (TypeError); a refusal of those is not judged",
    "two piecewise functions on different subdivisions may be refused",
]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 200}
FLOOR = 5000

REFUSED = (TypeError, NotImplementedError, ValueError, AssertionError, AttributeError)


def cases(tier, seed):
    rng = random.Random(f"p09/{seed}")
    n = 220 if tier == "quick" else 3500
    out = []
    for k in range(n):
        out.append(Case(f"program/{k}", "program", [rng.choice([1, 2, 2, 3]), rng.randint(0, 10**9)], 3))
    m = 12 if tier == "quick" else 200
    for name in ("reflected", "mismatch", "iteration", "equality", "substitution", "piecewise", "floats"):
        for k in range(m):
            out.append(Case(f"{name}/{k}", name, [rng.randint(0, 10**9)], 2))
    return out


# -- values ------------------------------------------------------------------------------------------
class V:
    """A function: .sym (symfem object or raw operand), .at(point) its value by the oracle."""

    def __init__(self, sym, at, kind, shape, form, cells=None):
        self.sym, self.at, self.kind, self.shape, self.form, self.cells = sym, at, kind, shape, form, cells


def shape_of(v):
    if not isinstance(v, list):
        return ()
    if not isinstance(v[0], list):
        return (len(v),)
    return (len(v), len(v[0]))


def zipmap(f, *vs):
    if isinstance(vs[0], list):
        return [zipmap(f, *i) for i in zip(*vs)]
    return f(*vs)


class Outside(Exception):
    pass


def ev_tree(e, env):
    import sympy

    if isinstance(e, sympy.MatrixBase):
        return [[ev_tree(e[i, j], env) for j in range(e.cols)] for i in range(e.rows)]
    if isinstance(e, (tuple, list, sympy.Tuple)):
        return [ev_tree(i, env) for i in e]
    if hasattr(e, "as_sympy"):
        return ev_tree(e.as_sympy(), env)
    return O.ev(sympy.sympify(e), env)


def observe(res, p, t, extra=None):
    """The value of a result at p, read structurally (never through symfem's own evaluation)."""
    env = dict(zip(("x", "y", "z"), [O.num(c) for c in list(p) + [0] * 3]))
    env.update(extra or {})
    while hasattr(res, "get_function"):
        res = res.get_function()
    pieces = getattr(res, "pieces", None)
    if pieces is None:
        return ev_tree(res, env)
    for vs, g in pieces.items():
        vs = [tuple(O.num(c) for c in v) for v in vs]
        if fem.in_piece(vs, p, t):
            return observe(g, p, t, extra)
    raise Outside


def through_subs(res, p):
    """The value symfem itself computes by substituting the point."""
    from symfem.symbols import x

    got = res.subs(x[: len(p)], O.spt(p))
    while hasattr(got, "get_function"):
        got = got.get_function()
    if getattr(got, "pieces", None) is not None:
        raise Outside
    return ev_tree(got, {})


def is_sym(s):
    return hasattr(s, "as_sympy")


def snapshot(s):
    import sympy

    def key(e):
        if isinstance(e, dict):
            return tuple((k, key(v)) for k, v in e.items())
        if isinstance(e, sympy.MatrixBase):
            return ("M", e.rows, e.cols, tuple(e))
        if isinstance(e, (tuple, list)):
            return tuple(key(i) for i in e)
        return e

    if is_sym(s):
        pieces = getattr(s, "pieces", None)
        if pieces is not None and not callable(pieces):
            return tuple((k, key(f.as_sympy())) for k, f in pieces.items())
        return key(s.as_sympy())
    return key(s)


# -- making operands ----------------------------------------------------------------------------------
class Maker:
    def __init__(self, r, t):
        self.r, self.t = r, t
        self.cell = {1: "interval", 2: r.choice(["triangle", "quadrilateral"]), 3: "tetrahedron"}[t]
        self.pw = gen.subdivision(r, self.cell, O.VERTS[self.cell])

    def points(self, n=3):
        out = []
        while len(out) < n:
            p = O.rand_point_in(self.r, self.cell, 60)
            if sum(fem.in_piece(vs, p, self.t) for vs in self.pw) == 1:
                out.append(p)
        return out

    def make(self, kind, shape=None, form=None, deg=2):
        r, t = self.r, self.t
        if form is None:
            form = r.choice(["raw", "plain", "plain", "lazy", "piecewise"])
        if shape is None:
            n = r.choice([1, 2, 3])
            shape = {"s": (), "v": (t if form == "lazy" else n,), "m": (n, r.choice([1, 2, 3]))}[kind]
        from symfem.functions import parse_function_input
        from symfem.piecewise_functions import PiecewiseFunction

        if form == "lazy":
            want = {"s": (), "v": (t,), "m": (t, t)}[kind]
            if (kind, t) in gen.LAZY and shape == want:
                el = gen.lazy_element(kind, t)
                b = el.get_basis_function(r.randrange(el.space_dim))
                if r.random() < 0.3:
                    from symfem.symbols import x

                    o = [O.rand_frac(r, -2, 2) for _ in range(t)]
                    s = [O.rand_frac(r, 1, 2) for _ in range(t)]
                    P = [O.Poly.var(3, i) * k + c for i, (k, c) in enumerate(zip(s, o))]
                    sub = b.subs(x[:t], tuple(O.poly_to_sympy(p) for p in P))
                    comps = fem.read_plain(b)
                    return V(sub, lambda p: fem.value(comps, [q(list(p) + [0] * (3 - t)) for q in P]), kind, shape, "lazy-subbed")
                comps = fem.read_plain(b)
                return V(b, lambda p: fem.value(comps, p), kind, shape, "lazy")
            form = "plain"
        if form == "piecewise":
            fs = [gen.rand_comps(r, t, kind, deg, shape or None) for _ in self.pw]
            items = list(zip(self.pw, fs))
            if r.random() < 0.4:
                r.shuffle(items)
            sym = PiecewiseFunction({tuple(O.spt(v) for v in vs): gen.to_sym(f) for vs, f in items}, t)

            def at(p):
                for vs, f in items:
                    if fem.in_piece(vs, p, t):
                        return evp(f, p)
                raise Outside

            return V(sym, at, kind, shape, "piecewise", True)
        f = gen.rand_comps(r, t, kind, deg, shape or None)
        s = gen.to_sym(f)
        if form == "raw":
            if kind == "s" and r.random() < 0.5:
                c = r.choice([2, -3, 1])
                return V(c, lambda p: Fraction(c), kind, shape, "int")
            if kind == "v" and r.random() < 0.5:
                s = list(s)
            if kind == "v" and r.random() < 0.3:
                # components that are functions themselves
                s = tuple(parse_function_input(i) for i in s)
            if kind == "m":
                import sympy

                k = r.randrange(3)
                s = sympy.Matrix(s) if k == 0 else [list(i) for i in s] if k == 1 else s
                return V(s, lambda p: evp(f, p), kind, shape, "sympy matrix" if k == 0 else "raw")
            return V(s, lambda p: evp(f, p), kind, shape, "raw")
        return V(parse_function_input(s), lambda p: evp(f, p), kind, shape, "plain")


def evp(f, p):
    if isinstance(f, list):
        return [evp(i, p) for i in f]
    return f(list(p)[: f.n])


# -- one operation ---------------------------------------------------------------------------------------
def mmul(a, b):
    if not isinstance(a[0], list):
        return [sum((O.mul(x, y) for x, y in zip(a, c)), O.F0) for c in zip(*b)]
    if not isinstance(b[0], list):
        return [sum((O.mul(x, y) for x, y in zip(r, b)), O.F0) for r in a]
    return [[sum((O.mul(x, y) for x, y in zip(r, c)), O.F0) for c in zip(*b)] for r in a]


def minus(a, b):
    return O.add(a, -b)


def flatdot(a, b):
    return sum((O.mul(x, y) for x, y in zip(fem.flatv(a), fem.flatv(b))), O.F0)


def cross(a, b):
    if len(a) == 2:
        return O.add(O.mul(a[0], b[1]), -O.mul(a[1], b[0]))
    return O.cross(a, b)


def norm(v):
    return O.power(flatdot(v, v), Fraction(1, 2))


def det(v):
    if len(v) == len(v[0]):
        return O.det(v)
    c = list(zip(*v))
    return norm(O.cross(list(c[0]), list(c[1])))


def operations(r, M, pool):
    """A random applicable operation: (name, operands, function on objects, function on values)."""
    t = M.t
    a = r.choice(pool)
    if not is_sym(a.sym):
        a = M.make(a.kind, a.shape, "plain")
    k = r.random()

    def other(kind=None, shape=None):
        """An operand of the given kind, from the pool or new; may be raw."""
        kind = kind or a.kind
        c = [v for v in pool if v.kind == kind and (shape is None or v.shape == shape)]
        if c and r.random() < 0.4:
            return r.choice(c)
        return M.make(kind, shape)

    if k < 0.30:
        b = other(a.kind, a.shape)
        name, f, h = r.choice([("add", operator.add, O.add), ("sub", operator.sub, minus)])
        g = lambda u, v: zipmap(h, u, v)  # noqa: E731
        if r.random() < 0.5:
            return name, [b, a], f, g
        return name, [a, b], f, g
    if k < 0.42:
        b = other("s") if a.kind != "s" or r.random() < 0.5 else other(r.choice("svm"))
        s, o = (b, a) if b.kind == "s" else (a, b)
        first = [s, o] if r.random() < 0.5 else [o, s]
        if not any(is_sym(v.sym) for v in first):
            return None
        if s is first[0]:
            return "mul", first, operator.mul, lambda u, v: zipmap(lambda w: O.mul(u, w), v)
        return "mul", first, operator.mul, lambda u, v: zipmap(lambda w: O.mul(w, v), u)
    if k < 0.50:
        d = positive(M, other("s"))
        if d is None:
            return None
        if a.kind == "s" and r.random() < 0.4:
            b = positive(M, a)
            if b is not None and is_sym(b.sym):
                return "rtruediv", [d, b], operator.truediv, lambda u, v: O.div(u, v)
        return "truediv", [a, d], operator.truediv, lambda u, v: zipmap(lambda w: O.div(w, v), u)
    if k < 0.56:
        e = r.choice([0, 1, 2, 3])
        import sympy

        ex = r.choice([e, sympy.Integer(e)])
        b = V(ex, lambda p: Fraction(e), "s", (), "exponent")
        if a.kind == "s" and r.random() < 0.3:
            from symfem.functions import ScalarFunction

            b.sym = ScalarFunction(e)
        return "pow", [a, b], operator.pow, lambda u, v: zipmap(lambda w: O.power(w, v), u)
    if k < 0.61:
        return "neg", [a], operator.neg, lambda u: zipmap(lambda w: -w, u)
    if k < 0.71 and a.kind in "vm":
        if a.kind == "v":
            m = M.make("m", (a.shape[0], r.choice([1, 2, 3])) if r.random() < 0.5 else None, r.choice(["plain", "lazy", "piecewise"]))
            if m.shape[0] == a.shape[0] and r.random() < 0.5:
                return "matmul", [a, m], operator.matmul, mmul
            m = M.make("m", (r.choice([1, 2, 3]), a.shape[0]), r.choice(["plain", "piecewise"]))
            return "matmul", [m, a], operator.matmul, mmul
        m = M.make("m", (a.shape[1], r.choice([1, 2, 3])), r.choice(["plain", "piecewise", "lazy"]))
        return "matmul", [a, m], operator.matmul, mmul
    if k < 0.79:
        b = other(a.kind, a.shape)
        return "dot", [a, b], lambda u, v: u.dot(v), lambda u, v: flatdot(u, v)
    if k < 0.84 and a.kind == "v" and a.shape[0] in (2, 3):
        b = other("v", a.shape)
        return "cross", [a, b], lambda u, v: u.cross(v), cross
    if k < 0.88 and a.kind in "sv":
        return "norm", [a], lambda u: u.norm(), lambda u: norm(u) if isinstance(u, list) else abs(u)
    if a.kind == "v":
        i = r.randrange(-a.shape[0], a.shape[0])
        if r.random() < 0.25 and a.shape[0] > 1:
            return "slice", [a], lambda u: u[1:], lambda u: u[1:]
        return "index", [a], lambda u: u[i], lambda u: u[i]
    if a.kind == "m":
        k = r.randrange(5)
        i, j = r.randrange(a.shape[0]), r.randrange(a.shape[1])
        if k == 0:
            return "index", [a], lambda u: u[i, j], lambda u: u[i][j]
        if k == 1:
            return "row", [a], lambda u: u[i], lambda u: u[i]
        if k == 2 and a.shape in ((1, 1), (2, 2), (3, 3), (3, 2)):
            return "det", [a], lambda u: u.det(), det
        return "transpose", [a], lambda u: u.transpose(), lambda u: [list(c) for c in zip(*u)]
    return None


def positive(M, s):
    """A denominator that does not vanish: s*s + 1 (through symfem), or a raw number."""
    if s.form in ("int", "exponent"):
        return s if s.sym else None
    if not is_sym(s.sym):
        from symfem.functions import parse_function_input

        sym = parse_function_input(s.sym)
    else:
        sym = s.sym
    try:
        sq = sym * sym + 1
    except REFUSED:
        return None
    return V(sq, lambda p: O.add(O.mul(s.at(p), s.at(p)), O.F1), "s", (), s.form, s.cells)


def judge(ctx, name, ops, res, vf, M, extra=None):
    """Compare a result with the model; returns the V of the result."""
    forms = "|".join(f"{v.kind}:{v.form}" for v in ops)
    key = f"{name}|{forms}|{M.t}"
    mech = f"{name}:{'|'.join(v.kind for v in ops)}"
    good = True
    at = lambda p: vf(*[v.at(p) for v in ops])  # noqa: E731
    shp = None
    kind = "s"
    for p in M.points(2):
        try:
            want = at(p)
        except (Outside, ZeroDivisionError):
            continue
        shp = shape_of(want)
        kind = {0: "s", 1: "v", 2: "m"}[len(shp)]
        try:
            got = observe(res, p, M.t)
        except Outside:
            ctx.violate(mech + ":pieces", f"no piece of the result contains {[str(c) for c in p]} ({forms})")
            return None
        good &= ctx.expect(
            shape_of(got) == shp and fem.same_value(got, want), "value", mech, f"wrong value at {[str(c) for c in p]} ({forms})",
            got=got, want=want, key=key,
        )  # fmt: skip
        if good and is_sym(res):
            try:
                sub = through_subs(res, p)
            except Outside:
                continue
            good &= ctx.expect(
                shape_of(sub) == shp and fem.same_value(sub, want), "value", mech + ":subs", f"subs gives a wrong value at {p} ({forms})",
                got=sub, want=want, key=key + "|subs",
            )  # fmt: skip
        if good and is_sym(res):
            ctx.expect(
                (res.is_scalar, res.is_vector, res.is_matrix) == (kind == "s", kind == "v", kind == "m"), "kind", mech + ":kind",
                f"the result calls itself scalar={res.is_scalar} vector={res.is_vector} matrix={res.is_matrix}", key=key + "|kind",
            )  # fmt: skip
            if kind == "v":
                ctx.expect(len(res) == shp[0], "shape", mech + ":len", f"len is {len(res)}", want=shp, key=key + "|len")
            if kind in "vm" and hasattr(type(res), "shape"):
                ctx.expect(tuple(res.shape) == shp, "shape", mech + ":shape", f"shape is {res.shape}", want=shp, key=key + "|shape")
    if not good or shp is None:
        return None
    return V(res, at, kind, shp, "result", any(v.cells for v in ops))


def refusal_allowed(name, ops, e):
    forms = [v.form for v in ops]
    if name == "cross" and ops[0].shape == (3,) and any(v.cells for v in ops[1:]):
        return True  # needs a vector of piecewise functions
    if name == "pow" and ops[1].cells:
        return True
    if ops[0].form == "sympy matrix":
        return True  # sympy's own operator refuses the function
    if name == "mul" and any(v.form in ("raw", "sympy matrix") and v.kind != "s" for v in ops):
        return True  # Python's own repetition of a sequence
    if name in ("matmul",) and any(f in ("raw", "sympy matrix") for f in forms):
        return True
    return False


def apply(ctx, name, ops, f, vf, M):
    before = [snapshot(v.sym) for v in ops]
    try:
        res = f(*[v.sym for v in ops])
    except REFUSED as e:
        if refusal_allowed(name, ops, e):
            ctx.seen("refused", f"{name}|{'|'.join(v.form for v in ops)}")
            return None
        raise
    if res is NotImplemented:
        ctx.violate(f"{name}:NotImplemented", "the operation returns NotImplemented")
        return None
    out = judge(ctx, name, ops, res, vf, M)
    for b, v in zip(before, ops):
        ctx.expect(
            snapshot(v.sym) == b, "operands", f"{name}:changes an operand", f"{v.kind}:{v.form} operand changed",
            key=f"{name}|{v.kind}|{v.form}|unchanged",
        )  # fmt: skip
    return out


def size(v):
    import sympy

    s = v.sym
    while hasattr(s, "get_function"):
        s = s.get_function()
    fs = list(s.pieces.values()) if getattr(s, "pieces", None) else [s]
    n = 0
    for f in fs:
        e = f.as_sympy() if is_sym(f) else f
        if isinstance(e, dict):
            return 10**6
        for c in list(e) if isinstance(e, (tuple, list, sympy.MatrixBase)) else [e]:
            n += sympy.sympify(c).count_ops() if not isinstance(c, (list, tuple)) and not is_sym(c) else 5
    return n


def program(ctx, t, gseed):
    r = random.Random(gseed)
    M = Maker(r, t)
    pool = [M.make(k) for k in ("s", "v", "m")] + [M.make(r.choice("sv"))]
    done = []
    for _ in range(r.randint(4, 8)):
        op = operations(r, M, pool)
        if op is None:
            continue
        name, ops, f, vf = op
        if not any(is_sym(v.sym) for v in ops):
            continue
        out = apply(ctx, name, ops, f, vf, M)
        done.append(name)
        if out is not None and is_sym(out.sym) and size(out) < 400:
            pool.append(out)
    ctx.sample({"tdim": t, "operations": done})


def reflected(ctx, gseed):
    """Every operator with every form on the left and on the right."""
    r = random.Random(gseed)
    t = r.choice([1, 2, 3])
    M = Maker(r, t)
    forms = ["raw", "plain", "lazy", "piecewise"]
    for kind in "svm":
        for fa in forms:
            for fb in forms:
                if fa == fb == "raw":
                    continue
                shape = {"s": (), "v": (t,), "m": (t, t)}[kind]
                a, b = M.make(kind, shape, fa), M.make(kind, shape, fb)
                if not (is_sym(a.sym) or is_sym(b.sym)):
                    continue
                for name, f, h in (("add", operator.add, O.add), ("sub", operator.sub, minus)):
                    apply(ctx, name, [a, b], f, lambda u, v, h=h: zipmap(h, u, v), M)
                if is_sym(a.sym):
                    apply(ctx, "dot", [a, b], lambda u, v: u.dot(v), lambda u, v: flatdot(u, v), M)
                s = M.make("s", (), fb)
                if is_sym(a.sym) or is_sym(s.sym):
                    if not (fa == "raw" and kind != "s"):
                        apply(ctx, "mul", [a, s], operator.mul, lambda u, v: zipmap(lambda w: O.mul(w, v), u), M)
                        apply(ctx, "mul", [s, a], operator.mul, lambda u, v: zipmap(lambda w: O.mul(u, w), v), M)
                    d = positive(M, s)
                    if d is not None and is_sym(a.sym):
                        apply(ctx, "truediv", [a, d], operator.truediv, lambda u, v: zipmap(lambda w: O.div(w, v), u), M)


def mismatch(ctx, gseed):
    """Operands of incompatible shape are refused, not silently cut."""
    r = random.Random(gseed)
    t = r.choice([2, 3])
    M = Maker(r, t)

    def refused(what, fn):
        try:
            got = fn()
        except (*REFUSED, IndexError) as e:
            ctx.seen("refused", f"{what}|{type(e).__name__}")
            ctx.expect(True, "shapes", what, key=what)
            return
        ctx.violate(f"incompatible:{what}", f"incompatible operands are combined: {str(got)[:100]}")

    for fa in ("plain", "lazy", "piecewise"):
        for fb in ("raw", "plain", "piecewise"):
            v = M.make("v", (t,), fa)
            for n in (t - 1, t + 1):
                w = M.make("v", (n,), fb)
                refused(f"v+v:{fa}|{fb}", lambda: v.sym + w.sym)
                refused(f"v-v:{fa}|{fb}", lambda: v.sym - w.sym)
                refused(f"v+v:{fb}|{fa}", lambda: w.sym + v.sym)
                refused(f"v-v:{fb}|{fa}", lambda: w.sym - v.sym)
                refused(f"v.dot:{fa}|{fb}", lambda: v.sym.dot(w.sym))
                refused(f"v.cross:{fa}|{fb}", lambda: v.sym.cross(w.sym))
            m = M.make("m", (t, t), fa)
            for shp in ((t - 1, t), (t + 1, t), (t, t - 1), (t, t + 1)):
                w = M.make("m", shp, fb)
                refused(f"m+m:{fa}|{fb}", lambda: m.sym + w.sym)
                refused(f"m-m:{fa}|{fb}", lambda: m.sym - w.sym)
                refused(f"m+m:{fb}|{fa}", lambda: w.sym + m.sym)
                refused(f"m-m:{fb}|{fa}", lambda: w.sym - m.sym)
                refused(f"m.dot:{fa}|{fb}", lambda: m.sym.dot(w.sym))
                if is_sym(w.sym) and shp[0] != t:
                    refused(f"m@m:{fa}|{fb}", lambda: m.sym @ w.sym)
                if is_sym(w.sym) and shp[1] != t:
                    refused(f"m@v:{fa}|{fb}", lambda: w.sym @ v.sym)
                if is_sym(w.sym) and shp[0] != t:
                    refused(f"v@m:{fa}|{fb}", lambda: v.sym @ w.sym)
            s = M.make("s", (), fb)
            if is_sym(s.sym):
                refused(f"v+s:{fa}|{fb}", lambda: v.sym + s.sym)
                refused(f"s-m:{fa}|{fb}", lambda: s.sym - m.sym)
            refused(f"m+s:{fa}", lambda: m.sym + 1)
            refused(f"v*v:{fa}", lambda: v.sym * v.sym)
            refused(f"m*m:{fa}", lambda: m.sym * m.sym)
            refused(f"1/v:{fa}", lambda: 1 / v.sym)


def iteration(ctx, gseed):
    r = random.Random(gseed)
    t = r.choice([2, 3])
    M = Maker(r, t)
    for form in ("plain", "lazy"):
        v = M.make("v", (t,), form)
        p = M.points(1)[0]
        want = v.at(p)

        def vals(it):
            return [observe(c, p, t) for c in it]

        n = len(v.sym)
        key = f"iter|{form}"
        ctx.expect(n == t, "iteration", "len", f"len is {n}", key=key)
        ctx.expect(fem.same_value(vals(list(v.sym)), want), "iteration", "list", f"{form}", key=key + "|list")
        a, *rest = v.sym
        ctx.expect(fem.same_value(vals([a, *rest]), want), "iteration", "unpack", form, key=key + "|unpack")
        pairs = [(i, j) for i in v.sym for j in v.sym]
        ok = len(pairs) == t * t and fem.same_value(vals([i for i, _ in pairs]), [want[k // t] for k in range(t * t)])
        ctx.expect(ok, "iteration", "nested", f"{form}: nested iteration gives {len(pairs)} pairs instead of {t * t}", key=key + "|nested")
        z = list(zip(v.sym, v.sym))
        ctx.expect(
            len(z) == t and fem.same_value(vals([j for _, j in z]), want), "iteration", "zip", f"{form}: zip(v, v) gives {len(z)} pairs",
            key=key + "|zip",
        )  # fmt: skip
        it = iter(v.sym)
        first = observe(next(it), p, t)
        list(v.sym)
        rest = vals(it)
        ctx.expect(
            fem.same_value([first, *rest], want), "iteration", "interrupted", f"{form}: an iterator loses its place when another one is made",
            key=key + "|interrupted",
        )  # fmt: skip
        ctx.expect(len(list(enumerate(v.sym))) == t, "iteration", "enumerate", form, key=key + "|enumerate")
        for i in range(-t, t):
            ctx.expect(fem.same_value(observe(v.sym[i], p, t), want[i]), "iteration", "index", f"{form} [{i}]", key=key + "|index")
        for i in (t, -t - 1, t + 3):
            try:
                v.sym[i]
                ctx.violate("index out of range", f"[{i}] of a vector of length {t}")
            except IndexError:
                ctx.expect(True, "iteration", "index out of range", key=key + "|out of range")
        m = M.make("m", (t, t), form)
        wm = m.at(p)
        ok = all(
            fem.same_value(observe(m.sym[i, j], p, t), wm[i][j]) and fem.same_value(observe(m.sym[i][j], p, t), wm[i][j])
            for i in range(t) for j in range(t)
        )  # fmt: skip
        ctx.expect(ok, "iteration", "matrix index", form, key=key + "|matrix")
        if form == "plain":
            for j in range(t):
                ctx.expect(
                    fem.same_value(observe(m.sym.col(j), p, t), [row[j] for row in wm])
                    and fem.same_value(observe(m.sym.row(j), p, t), wm[j]),
                    "iteration", "row and col", form, key=key + "|rowcol",
                )  # fmt: skip
        s = M.make("s", (), form)
        for bad in (lambda: len(s.sym), lambda: list(s.sym), lambda: s.sym[0]):
            try:
                bad()
                ctx.violate("scalar is not a sequence", "len, iteration or indexing of a scalar function answers")
            except (TypeError, ValueError):
                ctx.expect(True, "iteration", "scalar is not a sequence", key=key + "|scalar")


def equality(ctx, gseed):
    import sympy
    from symfem.functions import parse_function_input
    from symfem.piecewise_functions import PiecewiseFunction
    from symfem.symbols import x
    from symfem.utils import allequal

    r = random.Random(gseed)
    t = r.choice([1, 2, 3])
    M = Maker(r, t)

    def eq(a, b, want, what):
        got, ne = a == b, a != b
        ctx.expect(
            bool(got) == want and bool(ne) != want, "equality", f"equality:{what}", f"== gives {got}, != gives {ne}", want=want,
            key=f"eq|{what}|{want}",
        )  # fmt: skip

    def rewrite(e):
        k = r.randrange(4)
        if k == 0:
            return sympy.factor(e)
        if k == 1:
            return (e * (x[0] + 2)).expand() / (x[0] + 2)
        if k == 2:
            return sympy.expand(e + (x[0] - 1) ** 2) - x[0] ** 2 + 2 * x[0] - 1
        return e

    def tweak(e):
        return e + r.choice([1, x[0], sympy.Rational(1, 10**9)])

    def rebuild(s, f, where=None):
        if isinstance(s, sympy.MatrixBase):
            s = tuple(tuple(s[i, j] for j in range(s.cols)) for i in range(s.rows))
        if isinstance(s, tuple):
            k = r.randrange(len(s))
            return tuple(rebuild(c, f, where) if where is None or i == k else c for i, c in enumerate(s))
        return f(s)

    for form in ("plain", "lazy"):
        for kind in "svm":
            shape = {"s": (), "v": (t,), "m": (t, t)}[kind]
            a = M.make(kind, shape, form)
            s = a.sym.as_sympy()
            same, diff = rebuild(s, rewrite), rebuild(s, tweak, 1)
            eq(a.sym, parse_function_input(same), True, f"{kind}:{form}")
            eq(parse_function_input(same), a.sym, True, f"{kind}:{form}")
            eq(a.sym, parse_function_input(diff), False, f"{kind}:{form}")
            eq(a.sym, same, True, f"{kind}:{form}:raw")
            eq(a.sym, diff, False, f"{kind}:{form}:raw")
            if kind == "s":
                F = parse_function_input
                for u, v, want, what in (
                    (s, same, True, "expressions"), (a.sym, F(same), True, "functions"), (a.sym, F(diff), False, "functions"),
                    (same, a.sym, True, "expression on the left"), (diff, a.sym, False, "expression on the left"),
                    ([s, (F(same), s)], [a.sym, (a.sym, a.sym)], True, "nested"), ([s, (F(diff), s)], [a.sym, (a.sym, a.sym)], False, "nested"),
                    (a.sym, diff, False, "expression on the right"), (s, diff, False, "expression on the right"),
                    ([a.sym], [a.sym, a.sym], False, "other length"), ([a.sym, a.sym], (a.sym,), False, "other length"),
                ):  # fmt: skip
                    got = allequal(u, v)
                    ctx.expect(
                        bool(got) == want,
                        "equality",
                        f"equality:allequal:{what}",
                        f"allequal({u}, {v}) is {got}",
                        key=f"allequal|{what}|{want}",
                    )
            if kind == "m":
                eq(a.sym, sympy.Matrix(same), True, "m:sympy matrix")
            if kind == "v":
                eq(a.sym, same[:-1] if t > 1 else (*same, 0), False, "v:shorter")
                eq(a.sym, (*same, sympy.Integer(0)), False, "v:longer")
                eq(a.sym, M.make("m", (t, t), "plain").sym, False, "v against m")
                eq(a.sym, M.make("s", (), "plain").sym, False, "v against s")
            if kind == "s":
                eq(a.sym, (same,), False, "s against v")
                eq(a.sym * 0 + 3, 3, True, "s:int")
                eq(a.sym * 0 + 3, 4, False, "s:int")
    for kind in "svm":
        shape = {"s": (), "v": (t,), "m": (t, t)}[kind]
        a = M.make(kind, shape, "piecewise")
        pieces = [(k, f.as_sympy()) for k, f in a.sym.pieces.items()]
        b = PiecewiseFunction({k: rebuild(s, rewrite) for k, s in pieces}, t)
        eq(a.sym, b, True, f"{kind}:piecewise")
        i = r.randrange(len(pieces))
        c = PiecewiseFunction({k: rebuild(s, tweak, 1) if j == i else s for j, (k, s) in enumerate(pieces)}, t)
        eq(a.sym, c, False, f"{kind}:piecewise")
        r.shuffle(pieces)
        eq(a.sym, PiecewiseFunction(dict(pieces), t), True, f"{kind}:piecewise in another order")
        eq(a.sym, PiecewiseFunction(dict(pieces[:-1]), t), False, f"{kind}:piecewise with fewer pieces")
        eq(PiecewiseFunction(dict(pieces[:-1]), t), a.sym, False, f"{kind}:piecewise with fewer pieces")


def substitution(ctx, gseed):
    """subs replaces all variables at once, by numbers, expressions or functions."""
    import sympy
    from symfem.functions import ScalarFunction, VectorFunction
    from symfem.symbols import t as T
    from symfem.symbols import x

    r = random.Random(gseed)
    n = r.choice([2, 3])
    M = Maker(r, n)
    names = ("x", "y", "z")
    for kind in "svm":
        for form in ("plain", "lazy"):
            shape = {"s": (), "v": (n,), "m": (n, n)}[kind]
            a = M.make(kind, shape, form)
            comps_at = a.at
            # values that mention the variables themselves: a permutation, a shear, a quadratic map
            perm = list(range(n))
            r.shuffle(perm)
            polys = r.choice(
                [
                    [O.Poly.var(3, i) for i in perm],
                    [O.Poly.var(3, (i + 1) % n) + O.Poly.var(3, i) * 2 for i in range(n)],
                    [O.Poly.var(3, (i + 1) % n) * O.Poly.var(3, i) + 1 for i in range(n)],
                ]
            )
            exprs = tuple(O.poly_to_sympy(p) for p in polys)
            p = M.points(1)[0]
            want = comps_at([q(list(p) + [0] * (3 - n)) for q in polys])
            forms = {
                "tuple": exprs, "list": list(exprs), "VectorFunction": VectorFunction(exprs),
                "functions": tuple(ScalarFunction(e) for e in exprs),
            }  # fmt: skip
            for fname, val in forms.items():
                for vars_ in (x[:n], list(x[:n])) + ((x,) if n == 3 else ()):
                    got = observe(a.sym.subs(vars_, val), p, n)
                    ctx.expect(
                        fem.same_value(got, want), "substitution", f"subs:{kind}:{form}", f"simultaneous substitution of {exprs} as {fname}",
                        got=got, want=want, key=f"subs|{kind}|{form}|{fname}",
                    )  # fmt: skip
            # the listed variables in another order
            order = list(range(n))
            r.shuffle(order)
            got = observe(a.sym.subs([x[i] for i in order], [exprs[i] for i in order]), p, n)
            ctx.expect(
                fem.same_value(got, want),
                "substitution",
                f"subs order:{kind}:{form}",
                f"{order}",
                got=got,
                want=want,
                key=f"subs|{kind}|{form}|order",
            )
            # one variable only
            i = r.randrange(n)
            q = list(p)
            q[i] = polys[i](list(p) + [0] * (3 - n))
            want1 = comps_at(q)
            for val in (exprs[i], ScalarFunction(exprs[i])):
                got = observe(a.sym.subs(x[i], val), p, n)
                ctx.expect(
                    fem.same_value(got, want1), "substitution", f"subs one:{kind}:{form}", f"{names[i]} -> {exprs[i]}", got=got, want=want1,
                    key=f"subs|{kind}|{form}|one",
                )  # fmt: skip
            # through other symbols and back
            back = a.sym.subs(x[:n], T[:n]).subs(T[:n], x[:n])
            got = observe(back, p, n)
            ctx.expect(fem.same_value(got, comps_at(p)), "substitution", f"subs and back:{kind}:{form}", key=f"subs|{kind}|{form}|back")
            # points in all forms
            want = comps_at(p)
            pts = {
                "rational": O.spt(p), "list": list(O.spt(p)), "VectorFunction": VectorFunction(O.spt(p)),
                "functions": tuple(ScalarFunction(c) for c in O.spt(p)),
            }  # fmt: skip
            for fname, val in pts.items():
                got = ev_tree(strip(a.sym.subs(x[:n], val)), {})
                ctx.expect(
                    fem.same_value(got, want),
                    "substitution",
                    f"subs point:{kind}:{form}",
                    fname,
                    got=got,
                    want=want,
                    key=f"subs|{kind}|{form}|pt {fname}",
                )
            f = [float(c) for c in p]
            got = ev_tree(strip(a.sym.subs(x[:n], f)), {})
            ok = all(abs(float(u) - float(v)) <= 1e-9 * (1 + abs(float(v))) for u, v in zip(fem.flatv(got), fem.flatv(want)))
            ctx.expect(ok, "substitution", f"subs float:{kind}:{form}", got=got, want=want, key=f"subs|{kind}|{form}|float")
            # parameters
            al, be = sympy.Symbol("alpha"), sympy.Symbol("beta")
            if kind == "s":
                g = a.sym * al + be
                got = observe(g.subs((al, be), (be, al)), p, n, {"alpha": Fraction(2), "beta": Fraction(7)})
                ctx.expect(
                    fem.same_value(got, O.add(O.mul(want, Fraction(7)), Fraction(2))),
                    "substitution",
                    "subs parameters",
                    key=f"subs|param|{form}",
                )


def strip(res):
    while hasattr(res, "get_function"):
        res = res.get_function()
    return res


def piecewise(ctx, gseed):
    """Substitution into piecewise functions: the piece is the one that contains the point."""
    import sympy
    from symfem.symbols import t as T
    from symfem.symbols import x

    r = random.Random(gseed)
    n = r.choice([1, 2, 2, 3])
    M = Maker(r, n)
    al = sympy.Symbol("alpha")
    for kind in "svm":
        shape = {"s": (), "v": (n,), "m": (n, n)}[kind]
        a = M.make(kind, shape, "piecewise")
        p = M.points(1)[0]
        want = a.at(p)
        pt = O.spt(p)
        key = f"pw subs|{kind}|{n}"
        mech = f"piecewise subs:{kind}"

        def check(got, what, w=want):
            got = strip(got)
            try:
                g = observe(got, p, n)
            except Outside:
                g = None
            ctx.expect(
                g is not None and fem.same_value(g, w), "substitution", f"{mech}:{what}", f"tdim {n}", got=g, want=w, key=f"{key}|{what}"
            )

        check(a.sym.subs(x[:n], pt), "point")
        check(a.sym.subs(x[:n][::-1], pt[::-1]), "point, variables in another order")
        check(a.sym.subs(list(x), list(pt) + [0] * (3 - n)), "point with three coordinates")
        f = tuple(float(c) for c in p)
        got = ev_tree(strip(a.sym.subs(x[:n], f)), {})
        ok = all(abs(float(u) - float(v)) <= 1e-9 * (1 + abs(float(v))) for u, v in zip(fem.flatv(got), fem.flatv(want)))
        ctx.expect(ok, "substitution", mech + ":float", got=got, want=want, key=key + "|float")
        # other symbols: a parameter, or the dummy variables, which do not move the point
        b = a.sym * al
        k = O.rand_frac(r, 2, 9)
        kw = zipmap(lambda w: O.mul(w, k), want)
        check(b.subs(al, O.sp(k)), "parameter", kw)
        others = [al, *T][:n]
        check(b.subs(others, [O.sp(k)] * n), "as many parameters as dimensions", kw)


def floats(ctx, gseed):
    """with_floats: the same function with floating-point coefficients."""
    import sympy

    r = random.Random(gseed)
    t = r.choice([1, 2, 3])
    M = Maker(r, t)
    for kind in "svm":
        for form in ("plain", "lazy", "piecewise"):
            shape = {"s": (), "v": (t,), "m": (t, t)}[kind]
            a = M.make(kind, shape, form)
            w = a.sym.with_floats()
            for p in M.points(2):
                want = a.at(p)
                got = observe(w, p, t)
                ok = shape_of(got) == shape_of(want) and all(
                    abs(float(u) - float(v)) <= 1e-9 * (1 + abs(float(v))) for u, v in zip(fem.flatv(got), fem.flatv(want))
                )
                ctx.expect(ok, "floats", f"with_floats:{kind}:{form}", got=got, want=want, key=f"floats|{kind}|{form}")
            if form != "piecewise":
                e = strip(w).as_sympy()
                atoms = set()
                for c in list(e) if isinstance(e, (tuple, sympy.MatrixBase)) else [e]:
                    for term in sympy.Add.make_args(sympy.sympify(c)):
                        co = term.as_coeff_Mul()[0]
                        if term.free_symbols or term.is_number:
                            atoms.add(co.is_Float or co in (0, 1))
                ctx.expect(
                    all(atoms),
                    "floats",
                    f"with_floats coefficients:{kind}",
                    "exact coefficients are left",
                    key=f"floats|{kind}|{form}|coeff",
                )
    s = M.make("s", (), "plain")
    p = M.points(1)[0]
    from symfem.symbols import x

    c = s.sym.subs(x[:t], O.spt(p))
    ctx.expect(abs(float(c) - float(s.at(p))) < 1e-9 * (1 + abs(float(s.at(p)))), "floats", "float()", key="floats|float()")
    k = s.at(p)
    ctx.expect(
        bool(c < O.sp(k) + 1) and bool(c <= O.sp(k)) and bool(c > O.sp(k) - 1) and bool(c >= O.sp(k)) and not bool(c < O.sp(k)) and not bool(c > O.sp(k)),
        "floats", "comparison of constants", key="floats|comparison",
    )  # fmt: skip
