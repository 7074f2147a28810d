"""P15: the matrix cache never changes a result."""

import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from fractions import Fraction

import sympy

from harness import catalogue as C
from harness import oracle as O
from harness.core import REPO, Case, Skip

PROPERTY = "P15"
TECHNIQUE = "runtime monitor: every cached answer, along long mixed histories sharing one cache, compared with the uncached one"
RULE = (
    "One case = one history on one cache directory: many elements (all registered names, orders, variants, cells, cells with permuted, "
    "affinely mapped, irrational or float vertices, user classes of one name with other definitions), each asked cold, warm, again, from "
    "fresh objects and from other processes, against caching=False; or random exact matrices through serialisation; or random saves and "
    "loads against a dictionary. Distinct = element x state of the cache x query."
)
ASSUMPTIONS = [
    "a user class that declares its own last_updated changes it when its definition changes",
    "caching=False is the reference (its correctness is P01's and P03's subject)",
]
BUDGET = {"quick": 330, "thorough": 860}
CASE_LIMIT = {"quick": 110, "thorough": 500}
FLOOR = 1500


def cases(tier, seed):
    rng = random.Random(f"p15/{seed}")
    quick = tier == "quick"
    out = []

    def add(name, fn, args, cost, prio=5):
        out.append(Case(name, fn, [*args, rng.randint(0, 10**9)], cost, prio))

    items = C.select(0.35 if quick else 6)
    items += C.breadth(2 if quick else 8, items, siblings=True)
    byname = {}
    for it in items:
        byname.setdefault(it[2], []).append(it)
    for name in sorted(byname):
        group = siblings_first(rng, byname[name], 10 if quick else 60)
        add(f"family/{name}", "history", [[strip(i) for i in group], 1], sum(i[5] for i in group) * 4 + 1)
    cheap = C.select(0.12 if quick else 0.8)
    rng.shuffle(cheap)
    everything = cheap[: 180 if quick else 700]
    add("everything", "history", [[strip(i) for i in everything], 0], sum(i[5] for i in everything) * 3 + 20, 6)
    for n in range(6 if quick else 30):
        some = rng.sample(cheap, 25)
        add(f"mixed/{n}", "history", [[strip(i) for i in some], 2], 10)
    for n in range(8 if quick else 60):
        add(f"cells/{n}", "vertices", [[strip(i) for i in rng.sample(cheap, 12 if quick else 20)]], 8)
    for n in range(3 if quick else 12):
        add(f"transition/{n}", "transition", [30 if quick else 60], 8)
    for n in range(8 if quick else 40):
        add(f"user/{n}", "user_classes", [n], 3, 7)
    for n in range(2 if quick else 8):
        add(f"edited/{n}", "edited_script", [], 8, 7)
    for n in range(2 if quick else 8):
        add(f"processes/{n}", "processes", [[strip(i) for i in rng.sample(cheap, 20)]], 10, 6)
    for n in range(6 if quick else 40):
        add(f"strings/{n}", "strings", [120], 3)
    for n in range(4 if quick else 30):
        add(f"store/{n}", "store", [80], 2)
    return out


def siblings_first(rng, group, count):
    """A selection in which elements that differ in their keywords only come together."""
    sets = {}
    for it in group:
        sets.setdefault((it[1], it[4]), []).append(it)
    keys = list(sets)
    rng.shuffle(keys)
    cells, first, later = set(), [], []
    for k in sorted(keys, key=lambda k: -min(len(sets[k]), 3)):
        (later if k[0] in cells else first).append(k)
        cells.add(k[0])
    rng.shuffle(later)
    out = []
    for k in first + later:
        out += sets[k]
        if len(out) >= count:
            break
    return out


def strip(it):
    return [it[1], it[2], it[3], it[4]]


def make(it, vertices=None):
    import symfem

    cell, name, kw, order = it
    kw = {k: list(v) if isinstance(v, (list, tuple)) else v for k, v in kw.items()}
    if vertices is not None:
        return symfem.create_element(cell, name, order, vertices=vertices, **kw)
    return symfem.create_element(cell, name, order, **kw)


def same(a, b):
    """Two sympy matrices hold the same numbers."""
    if a.shape != b.shape:
        return False
    for x, y in zip(list(a), list(b)):
        if x != y:
            if x.is_Rational and y.is_Rational:
                return False
            fx, fy = x.has(sympy.Float), y.has(sympy.Float)
            if fx != fy:
                return False
            if fx:
                if abs(float(x) - float(y)) > 1e-13 * max(1, abs(float(x))):
                    return False
            elif not O.close(O.num(x), O.num(y)):
                return False
    return True


def is_inverse(a, b):
    """b is the inverse of a."""
    n = a.rows
    if a.shape != b.shape:
        return False
    floats = any(x.has(sympy.Float) for x in list(a) + list(b))
    if floats:
        p = sympy.matrix2numpy(a, dtype=float) @ sympy.matrix2numpy(b, dtype=float)
        return all(abs(p[i][j] - (i == j)) < 1e-6 for i in range(n) for j in range(n))
    x = [[O.num(a[i, j]) for j in range(n)] for i in range(n)]
    y = [[O.num(b[i, j]) for j in range(n)] for i in range(n)]
    p = O.matmul(x, y)
    return all(O.close(p[i][j], O.F1 if i == j else O.F0) for i in range(n) for j in range(n))


def text(e):
    return [str(f) for f in e.get_basis_functions()]


REFS = {}  # uncached matrices, by label


def check(ctx, key, makers, state, basis=True):
    """One visit: a fresh object's answers, with whatever the cache holds now, against caching=False."""
    from symfem.finite_element import CiarletElement

    e = makers()
    if not isinstance(e, CiarletElement):
        return
    if key not in REFS:
        REFS[key] = e.get_dual_matrix(caching=False).as_immutable()
    ref = REFS[key]
    got = e.get_dual_matrix()
    ctx.expect(same(ref, got), f"dual matrix ({state})", "wrong dual matrix", f"{key} ({state}): {got} instead of {ref}", key=key)
    inv = e.get_dual_matrix(inverse=True)
    ctx.expect(is_inverse(ref, inv), f"inverse ({state})", "wrong inverse", f"{key} ({state}): {inv} is not the inverse of {ref}", key=key)
    if state != "first":
        return
    again = makers()
    ctx.expect(
        same(again.get_dual_matrix(), ref) and same(again.get_dual_matrix(inverse=True), inv),
        f"warm ({state})", "wrong matrix from a warm cache", f"{key} ({state})", key=key,
    )  # fmt: skip
    if basis:
        want = expand(ref, e)
        other = makers()
        fs = other.get_basis_functions()
        ctx.expect(len(fs) == ref.rows, "number of functions", "wrong number of basis functions", key, key=key)
        if want is not None:
            for i, (f, w) in enumerate(zip(fs, want)):
                ok = agree(f, w)
                if not ctx.expect(
                    ok, f"basis functions ({state})", "wrong basis function", f"{key} ({state}): function {i} is {f}", key=(key, i)
                ):
                    break


def expand(ref, e):
    """The basis functions from the uncached matrix, where that is cheap."""
    if ref.rows > 24 or any(not x.is_Rational for x in ref):
        return None
    n = ref.rows
    m = [[Fraction(int(ref[i, j].p), int(ref[i, j].q)) for j in range(n)] for i in range(n)]
    try:
        inv = O.matinv(m)
    except (ZeroDivisionError, ValueError):
        return None
    if inv is None:
        return None
    return [(row, e.get_polynomial_basis()) for row in inv]


POINT = {"x": Fraction(3, 17), "y": Fraction(2, 13), "z": Fraction(5, 31)}


def agree(f, w):
    from symfem.piecewise_functions import PiecewiseFunction

    row, polys = w
    if isinstance(f, PiecewiseFunction) or any(isinstance(p, PiecewiseFunction) for p in polys):
        return True
    total = None
    for c, p in zip(row, polys):
        v = [O.mul(c, O.ev(q, POINT)) for q in entries(p)]
        total = v if total is None else [O.add(a, b) for a, b in zip(total, v)]
    got = [O.ev(q, POINT) for q in entries(f)]
    return len(got) == len(total) and all(O.close(a, b) for a, b in zip(got, total))


def entries(f):
    s = f.as_sympy()
    if isinstance(s, sympy.MatrixBase):
        return list(s)
    if isinstance(s, (tuple, list)):
        return list(s)
    return [s]


def history(ctx, items, repeats, seed):
    r = random.Random(seed)
    made = []
    for it in items:
        label = C.label(*it)
        try:
            e = make(it)
        except NotImplementedError:
            continue
        if len(getattr(e, "dofs", [])) == 0:
            continue
        if singular(e):
            continue
        made.append((label, it))
    visits = [(label, it, "first") for label, it in made]
    for _ in range(repeats):
        rest = [(label, it, "again") for label, it in made]
        r.shuffle(rest)
        visits += rest[: 40 if ctx.tier == "quick" else 200]
    if not repeats:
        rest = [(label, it, "again") for label, it in made]
        r.shuffle(rest)
        visits += rest[:80]
    for label, it, state in visits:
        check(ctx, label, lambda it=it: make(it), state, basis=state == "first")


SINGULAR = {}


def singular(e):
    """Elements whose dual matrix cannot be inverted are P20's subject."""
    from symfem.finite_element import CiarletElement

    if not isinstance(e, CiarletElement):
        return True
    key = (type(e).__module__, type(e).__name__, e.order, str(e.reference.vertices), str(e.init_kwargs()))
    if key in SINGULAR:
        return SINGULAR[key]
    m = e.get_dual_matrix(caching=False)
    SINGULAR[key] = not nonsingular(m)
    return SINGULAR[key]


def random_vertices(r, cell):
    """The reference vertices moved by a symmetry, an affine map or rewritten in other numbers."""
    import symfem

    ref = symfem.create_reference(cell)
    vs = [tuple(sympy.S(c) for c in v) for v in ref.vertices]
    d = len(vs[0])
    kind = r.choice(["permuted", "scaled", "shifted", "sheared", "reflected", "root", "float", "ints"])
    if kind == "permuted" and cell in ("interval", "triangle", "tetrahedron"):
        vs = r.sample(vs, len(vs))
    elif kind == "shifted":
        t = [sympy.Rational(r.randint(-5, 5), r.randint(1, 4)) for _ in range(d)]
        vs = [tuple(a + b for a, b in zip(v, t)) for v in vs]
    elif kind == "sheared" and d > 1:
        s = sympy.Rational(r.choice([-3, -1, 1, 2]), r.randint(1, 3))
        vs = [(v[0] + s * v[1],) + v[1:] for v in vs]
    elif kind == "reflected":
        vs = [(-v[0],) + v[1:] for v in vs]
    elif kind == "root":
        s = sympy.sqrt(r.choice([2, 3, 5]))
        vs = [(s * v[0],) + v[1:] for v in vs]
    elif kind == "float":
        s = r.choice([0.5, 1.25, 2.0])
        vs = [tuple(float(c) * s for c in v) for v in vs]
    elif kind == "ints":
        vs = [tuple(int(c) for c in v) for v in vs]
    else:
        s = sympy.Rational(r.randint(1, 9), r.randint(1, 7))
        vs = [tuple(s * c for c in v) for v in vs]
    return kind, tuple(vs)


def vertices(ctx, items, seed):
    """One element on many cells: the same order and name, so only the vertices tell the matrices apart."""
    from symfem.finite_element import NonDefaultReferenceError

    r = random.Random(seed)
    for it in items:
        if "dual" in it[0]:
            continue
        label = C.label(*it)
        try:
            if singular(make(it)):
                continue
        except NotImplementedError:
            continue
        for _ in range(3):
            kind, vs = random_vertices(r, it[0])
            try:
                e = make(it, vs)
            except (NonDefaultReferenceError, NotImplementedError):
                ctx.seen("cell refused", label)
                break
            ref = e.get_dual_matrix(caching=False)
            for state in ("cold", "warm"):
                got = make(it, vs).get_dual_matrix()
                ctx.expect(
                    same(ref, got), f"dual matrix on another cell ({state})", "wrong dual matrix on another cell",
                    f"{label} on {vs} ({kind}, {state}): {got} instead of {ref}", key=(label, str(vs)),
                )  # fmt: skip
            if kind != "root" and ref.rows <= 15 and nonsingular(ref):
                inv = make(it, vs).get_dual_matrix(inverse=True)
                ctx.expect(
                    is_inverse(ref, inv),
                    "inverse on another cell",
                    "wrong inverse on another cell",
                    f"{label} on {vs}",
                    key=(label, str(vs)),
                )
        e = make(it)
        ctx.expect(
            same(e.get_dual_matrix(caching=False), e.get_dual_matrix()), "reference cell after others", "wrong dual matrix after other cells",
            label, key=label,
        )  # fmt: skip


def nonsingular(m):
    import numpy

    a = numpy.array([[float(x) for x in m.row(i)] for i in range(m.rows)])
    return m.rows == m.cols and numpy.linalg.matrix_rank(a) == m.rows


def transition(ctx, count, seed):
    """Transition elements: a family whose keywords matter."""
    r = random.Random(seed)
    seen = {}
    for n in range(count):
        cell = r.choice(["triangle", "triangle", "tetrahedron"])
        order = r.randint(1, 3 if cell == "triangle" else 2)
        ne = 3 if cell == "triangle" else 6
        kw = {"edge_orders": [r.randint(1, 2) for _ in range(ne)], "variant": r.choice(["equispaced", "equispaced", "gll"])}
        if cell == "tetrahedron":
            kw["face_orders"] = [r.randint(1, 3) for _ in range(4)]
        if kw["variant"] != "equispaced" and max(kw["edge_orders"] + kw.get("face_orders", [0]) + [order]) > 2:
            kw["variant"] = "equispaced"
        it = [cell, "transition", kw, order]
        try:
            if singular(make(it)):
                continue
        except AssertionError:
            continue
        seen[C.label(*it)] = it
    for state in ("first", "again"):
        for label, it in seen.items():
            check(ctx, label, lambda it=it: make(it), state, basis=False)


# User classes -------------------------------------------------------------------------------------

POLYS = {
    "interval": [["1", "x"], ["1", "x**2"], ["1 - x", "x"], ["1 + x", "x**3"]],
    "triangle": [["1", "x", "y"], ["1", "x**2", "y"], ["1 - x - y", "x", "y"], ["1 + x*y", "x + y", "y**2"]],
    "quadrilateral": [["1", "x", "y"], ["1", "x", "x*y"], ["1", "y", "x**2"], ["x", "y", "1 + x*y"]],
}
POINTS = {
    "interval": [[(0,), (1,)], [("1/3",), (1,)], [("1/4",), ("2/3",)]],
    "triangle": [[(0, 0), (1, 0), (0, 1)], [("1/2", "1/2"), (0, "1/2"), ("1/3", 0)], [("1/3", "1/3"), (1, 0), ("1/5", "2/5")]],
    "quadrilateral": [[(1, 1), ("1/2", 0), (0, "1/2")], [("1/3", "1/3"), (1, 0), ("1/5", "4/5")], [(0, 0), (1, "1/3"), ("1/7", 1)]],
}
SOURCE = """
import sympy
from symfem.finite_element import CiarletElement
from symfem.functionals import PointEvaluation


class {cls}(CiarletElement):
    def __init__(self, reference, order{extra}):
        self.parameter = {param}
        polys = [sympy.S(p) for p in {polys!r}]
        points = [tuple(sympy.S(c) for c in p) for p in {points!r}]
        dofs = [PointEvaluation(reference, p, entity=({tdim}, 0)) for p in points]
        super().__init__(reference, order, polys, dofs, reference.tdim, 1)

    names = {names!r}
    references = [{cell!r}]
    min_order = 1
    max_order = 1
    continuity = "L2"
    value_type = "scalar"
    mapping = "identity"
{tail}"""
TDIM = {"interval": 1, "triangle": 2, "quadrilateral": 2}


def valid(polys, points):
    """The points determine the polynomials."""
    names = ["x", "y"]
    m = []
    for p in polys:
        m.append([sympy.S(p).subs({n: sympy.S(c) for n, c in zip(names, q)}) for q in points])
    return sympy.Matrix(m).det() != 0


def definition(r, cell):
    while True:
        p, q = r.choice(POLYS[cell]), r.choice(POINTS[cell])
        if valid(p, q):
            return p, q


def source(cls, cell, polys, points, tail="", extra="", param="None", names=("my element",)):
    return SOURCE.format(
        cls=cls, cell=cell, polys=polys, points=points, tdim=TDIM[cell], tail=tail, extra=extra, param=param, names=list(names)
    )


def define(src, module, cls):
    import types

    mod = types.ModuleType(module)
    sys.modules[module] = mod
    exec(compile(src, f"<{module}>", "exec"), mod.__dict__)
    return getattr(mod, cls)


def judge(ctx, key, e, polys, points, what):
    """A user element's matrix and basis, against what its definition says."""
    n = len(points)
    env = [dict(zip("xyz", [Fraction(str(c)) for c in p])) for p in points]
    want = [[O.ev(sympy.S(p), v) for v in env] for p in polys]
    got = e.get_dual_matrix()
    ok = got.shape == (n, n) and all(O.close(O.num(got[i, j]), want[i][j]) for i in range(n) for j in range(n))
    ctx.expect(ok, f"user dual matrix ({what})", "wrong dual matrix of a user class", f"{key} ({what}): {got} instead of {want}", key=key)
    ref = e.get_dual_matrix(caching=False)
    ctx.expect(same(ref, got), f"user uncached ({what})", "caching changes the matrix of a user class", f"{key} ({what})", key=key)
    fs = e.get_basis_functions()
    ok = len(fs) == n
    for i, f in enumerate(fs):
        for j, v in enumerate(env):
            ok = ok and O.close(O.ev(f.as_sympy(), v), O.F1 if i == j else O.F0)
    ctx.expect(ok, f"user basis ({what})", "wrong basis of a user class", f"{key} ({what}): {[str(f) for f in fs]}", key=key)


def user_classes(ctx, n, seed):
    import symfem
    from symfem import create_reference

    r = random.Random(seed)
    cls = r.choice(["MyElement", "CustomElement", "Lagrange", "Q", "Nedelec", "E"])
    cell = r.choice(list(POLYS))
    for step in range(10):
        kind = r.choice(["redefined", "module", "updated", "factory", "subclass", "parameter", "other cell"])
        if kind == "other cell":
            cell = r.choice(list(POLYS))
        polys, points = definition(r, cell)
        module = "user_module"
        if kind == "module":
            module = r.choice(["user_a", "user_b", "pkg.user"])
        key = f"{module}.{cls} on {cell}: {polys} at {points}"
        if kind == "factory":
            made = factory(cls, cell)
            for _ in range(3):
                polys, points = definition(r, cell)
                judge(ctx, f"{cls} on {cell}: {polys} at {points}", made(polys, points)(create_reference(cell), 1), polys, points, kind)
            continue
        if kind == "subclass":
            base = {"interval": "lagrange.Lagrange", "triangle": "lagrange.Lagrange", "quadrilateral": "q.Q"}[cell]
            mod, b = base.split(".")
            src = source(cls, cell, polys, points)
            src = src.replace(
                "from symfem.finite_element import CiarletElement",
                f"from symfem.finite_element import CiarletElement\nfrom symfem.elements.{mod} import {b} as Base",
            )
            src = (
                src.replace(f"class {cls}(CiarletElement):", f"class {cls}(Base):")
                .replace("super().__init__", "CiarletElement.__init__")
                .replace("__init__(reference, order, polys", "__init__(self, reference, order, polys")
            )
            src += "\n    def init_kwargs(self):\n        return {}\n"
            judge(ctx, f"subclass of {base} {key}", define(src, module, cls)(create_reference(cell), 1), polys, points, kind)
            continue
        if kind == "parameter":
            # one class, the points chosen by an argument that init_kwargs reports
            src = source(
                cls,
                cell,
                polys,
                points,
                tail="\n    def init_kwargs(self):\n        return {'parameter': self.parameter}\n",
                extra=", parameter=0",
                param="parameter",
            )
            src = src.replace(
                f"points = [tuple(sympy.S(c) for c in p) for p in {points!r}]",
                f"points = [tuple(sympy.S(c) for c in p) for p in {POINTS[cell]!r}[parameter]]",
            )
            k = define(src, module, cls)
            for i, pts in enumerate(POINTS[cell]):
                if valid(polys, pts):
                    judge(ctx, f"{key} with parameter {i}", k(create_reference(cell), 1, parameter=i), polys, pts, kind)
            continue
        tail = ""
        if kind == "updated":
            tail = f'    last_updated = "{n}.{step}.{seed}"\n'
        if kind == "module":
            # the same date in every module: it says when this class changed, not which class it is
            module = f"{module}{step}"
            tail = '    last_updated = "2024.01"\n' if r.random() < 0.7 else ""
        k = define(source(cls, cell, polys, points, tail), module, cls)
        e = k(create_reference(cell), 1)
        judge(ctx, key, e, polys, points, kind)
        judge(ctx, key, k(create_reference(cell), 1), polys, points, kind + ", warm")
    # the library's own elements are not affected by classes of the same names
    for c, name, order in [("triangle", "Lagrange", 1), ("interval", "Lagrange", 1), ("quadrilateral", "Q", 1), ("triangle", "N1curl", 1)]:
        check(ctx, f"{name}/{c} after user classes", lambda: symfem.create_element(c, name, order), "after user classes", basis=False)


def factory(cls, cell):
    from symfem.finite_element import CiarletElement
    from symfem.functionals import PointEvaluation

    def made(polys, points):
        class Made(CiarletElement):
            def __init__(self, reference, order):
                ps = [tuple(sympy.S(c) for c in p) for p in points]
                dofs = [PointEvaluation(reference, p, entity=(TDIM[cell], 0)) for p in ps]
                super().__init__(reference, order, [sympy.S(p) for p in polys], dofs, reference.tdim, 1)

            names = ["made"]
            references = [cell]
            min_order = 1
            max_order = 1
            continuity = "L2"
            value_type = "scalar"
            mapping = "identity"

        Made.__name__ = cls
        return Made

    return made


# Several processes, one after another -------------------------------------------------------------

SCRIPT = """
import json, sys
import symfem
from symfem import create_reference
{src}
e = {cls}(create_reference({cell!r}), 1)
print(json.dumps([[[str(c) for c in e.get_dual_matrix().row(i)] for i in range(len(e.dofs))], [str(f) for f in e.get_basis_functions()]]))
"""


def python(args, cache, hashseed="0", timeout=200):
    env = dict(os.environ, XDG_CACHE_HOME=cache, PYTHONPATH=REPO, PYTHONHASHSEED=hashseed)
    return subprocess.run([sys.executable, *args], env=env, capture_output=True, text=True, timeout=timeout)


def edited_script(ctx, seed):
    """A script with a user class, edited between runs on one cache."""
    r = random.Random(seed)
    cell = r.choice(list(POLYS))
    d = tempfile.mkdtemp()
    try:
        for step in range(3):
            polys, points = definition(r, cell)
            path = os.path.join(d, "script.py")
            with open(path, "w") as f:
                f.write(SCRIPT.format(src=source("MyElement", cell, polys, points), cls="MyElement", cell=cell))
            run = python([path], os.path.join(d, "cache"), str(step))
            if not ctx.expect(run.returncode == 0, "edited script runs", "a script with a user class fails", run.stderr[-600:], key=step):
                return
            rows, fs = json.loads(run.stdout)
            env = [dict(zip("xyz", [Fraction(str(c)) for c in p])) for p in points]
            want = [[O.ev(sympy.S(p), v) for v in env] for p in polys]
            ok = all(O.close(O.num(sympy.S(a)), b) for x, y in zip(rows, want) for a, b in zip(x, y))
            ctx.expect(ok, "edited script: matrix", "an edited user class gets the old matrix", f"{polys} at {points}: {rows}", key=step)
            ok = all(O.close(O.ev(sympy.S(f), v), O.F1 if i == j else O.F0) for i, f in enumerate(fs) for j, v in enumerate(env))
            ctx.expect(ok, "edited script: basis", "an edited user class gets the old basis", f"{polys} at {points}: {fs}", key=step)
    finally:
        shutil.rmtree(d, ignore_errors=True)


DRIVER = """
import json, sys
import symfem
out = []
for cell, name, kw, order in json.load(open(sys.argv[1])):
    e = symfem.create_element(cell, name, order, **kw)
    if not hasattr(e, "get_dual_matrix") or not hasattr(e, "dofs"):
        continue
    m = e.get_dual_matrix(inverse=sys.argv[2] == "inverse", caching=sys.argv[3] == "on")
    out.append([m.rows, m.cols, [repr(x) for x in m]])
print(json.dumps(out))
"""


def processes(ctx, items, seed):
    """What one process leaves in the cache serves another, whatever its hash seed and the order it asks in."""
    r = random.Random(seed)
    good = []
    for it in items:
        try:
            e = make(it)
        except NotImplementedError:
            continue
        if not singular(e):
            good.append(it)
    d = tempfile.mkdtemp()
    try:
        cache = os.path.join(d, "cache")
        for step in range(3):
            order = list(good)
            r.shuffle(order)
            path = os.path.join(d, "items.json")
            with open(path, "w") as f:
                json.dump(order, f)
            script = os.path.join(d, "driver.py")
            with open(script, "w") as f:
                f.write(DRIVER)
            kind = ["plain", "inverse"][step % 2] if step < 2 else r.choice(["plain", "inverse"])
            run = python([script, path, kind, "on"], cache, str(r.randint(0, 10**6)))
            if not ctx.expect(run.returncode == 0, "process", "a process with a shared cache fails", run.stderr[-600:], key=step):
                return
            for it, (rows, cols, vals) in zip(order, json.loads(run.stdout)):
                ref = make(it).get_dual_matrix(caching=False)
                got = sympy.Matrix(rows, cols, [sympy.S(v) for v in vals])
                ok = is_inverse(ref, got) if kind == "inverse" else same(ref, got)
                label = C.label(*it)
                ctx.expect(ok, f"other process ({kind})", "wrong matrix in another process", f"{label}, run {step}", key=(label, kind))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# Serialisation --------------------------------------------------------------------------------------


def number(r, depth=2):
    k = r.random()
    if k < 0.25:
        return sympy.Integer(r.choice([0, 0, 1, -1, 2, -7, 10**30, -(10**25) + 1, r.randint(-99, 99)]))
    if k < 0.5:
        return sympy.Rational(r.randint(-(10**6), 10**6), r.randint(1, 10**6))
    if k < 0.58:
        return sympy.sqrt(r.choice([2, 3, 5, 6, sympy.Rational(1, 3), sympy.Rational(7, 2)]))
    if k < 0.63:
        return r.choice([sympy.pi, sympy.E, sympy.I, sympy.GoldenRatio, -sympy.pi / 3, sympy.EulerGamma])
    if k < 0.70:
        return sympy.root(r.randint(2, 9), r.choice([3, 4, 5]))
    if k < 0.75:
        return r.choice([sympy.sin, sympy.cos, sympy.exp, sympy.log])(sympy.Rational(r.randint(1, 9), r.randint(1, 4)))
    if k < 0.79:
        return r.choice([sympy.oo, -sympy.oo]) if r.random() < 0.1 else sympy.Rational(1, r.randint(2, 10**12))
    if depth == 0:
        return sympy.Integer(r.randint(-9, 9))
    a, b = number(r, depth - 1), number(r, depth - 1)
    try:
        v = r.choice([lambda: a + b, lambda: a * b, lambda: a - 3 * b, lambda: sympy.sqrt(abs(a) + 1), lambda: a / (b * b + 1)])()
    except TypeError:
        v = a
    return a if v.has(sympy.nan, sympy.zoo) else v


def rand_matrix(r, shape=None):
    rows, cols = shape or (r.randint(1, 5), r.randint(1, 5))
    return sympy.Matrix(rows, cols, [number(r) for _ in range(rows * cols)])


def strings(ctx, count, seed):
    from symfem.caching import matrix_from_string, matrix_to_string

    r = random.Random(seed)
    for n in range(count):
        m = rand_matrix(r)
        back = matrix_from_string(matrix_to_string(m))
        ok = back.shape == m.shape and all(a == b or (a - b).equals(0) for a, b in zip(list(m), list(back)))
        ctx.expect(ok, "round trip", "serialisation changes a matrix", f"{m} became {back}", key=(seed, n))
        if n % 10 == 0:
            f = sympy.Matrix(2, 2, [sympy.Float(r.uniform(-9, 9) * 10 ** r.randint(-20, 20)) for _ in range(4)])
            back = matrix_from_string(matrix_to_string(f))
            ok = all(abs(float(a) - float(b)) <= 1e-13 * abs(float(a)) for a, b in zip(list(f), list(back)))
            ctx.expect(ok, "round trip of floats", "serialisation changes floats", f"{f} became {back}", key=(seed, n))


IDS = [
    "a",
    "a ",
    " a",
    "A",
    "",
    "é",
    "\n",
    "a\nb",
    "a;b",
    "a,b",
    "漢字 7",
    "x" * 5000,
    "../a",
    "dual",
    "1-",
    "Lagrange 1 ((0, 0), (1, 0))",
    "a\x00b",
]
TYPES = ["dual", "dualinv", "dual2", "dual-", "other", "d", "2", ""]


def store(ctx, count, seed):
    from symfem.caching import load_cached_matrix, save_cached_matrix

    r = random.Random(seed)
    model = {}
    prefix = f"{seed}/"
    for n in range(count):
        t, i = r.choice(TYPES), prefix + r.choice(IDS)
        if r.random() < 0.45:
            m = rand_matrix(r, r.choice([(1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 4)]))
            keep = m.copy()
            save_cached_matrix(t, i, m)
            ctx.expect(m == keep, "argument", "saving changes the matrix", f"{keep}", key=(seed, n))
            model[t, i] = keep
            if r.random() < 0.2:
                m[0, 0] = 77
        else:
            if model and r.random() < 0.7:
                t, i = r.choice(sorted(model))
            have = model.get((t, i))
            size = (
                have.shape
                if have is not None and r.random() < 0.7
                else r.choice([(1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (4, 1), (1, 6), (6, 1)])
            )
            got = load_cached_matrix(t, i, size)
            want = have if have is not None and have.shape == size else None
            if want is None:
                ctx.expect(got is None, "load of what was not saved", "load invents a matrix", f"{t!r} {i!r} {size}: {got}", key=(seed, n))
            else:
                ok = got is not None and got.shape == want.shape and all(a == b or (a - b).equals(0) for a, b in zip(list(got), list(want)))
                ctx.expect(
                    ok, "load of what was saved", "load returns another matrix", f"{t!r} {i!r}: {got} instead of {want}", key=(seed, n)
                )
                if got is not None and r.random() < 0.3:
                    got[0, 0] = got[0, 0] + 1
