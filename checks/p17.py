"""P17: queries are repeatable and do not change elements or functions."""

import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
from fractions import Fraction

import sympy

from harness import catalogue as C
from harness import oracle as O
from harness.core import REPO, Case

PROPERTY = "P17"
TECHNIQUE = "runtime monitor: random query histories on shared objects, every answer compared with a fresh object's in a fresh process"
RULE = (
    "One case = a few objects (elements of several families, their functionals and functions, references, hand-made functions) and a random "
    "sequence of public queries on them, with repetitions. Each distinct query is also asked of fresh objects in a forked process that "
    "imports symfem afresh; answers must agree. Everything handed out is fingerprinted when returned and again at the end, arguments before "
    "and after the call. Some cases replay the queries in new interpreters with other hash seeds. Distinct = object x query x position."
)
ASSUMPTIONS = ["two functions are the same when they agree at fixed rational points, piece by piece"]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 110, "thorough": 400}
FLOOR = 1500


def cases(tier, seed):
    rng = random.Random(f"p17/{seed}")
    quick = tier == "quick"
    items = C.select(0.25 if quick else 2)
    items += C.breadth(1.5 if quick else 8, items)
    fams = {}
    for it in items:
        fams.setdefault((it[1], it[2]), []).append(it)
    keys = sorted(fams)
    rng.shuffle(keys)
    out = []
    n = 0
    group = 2
    rounds = 1 if quick else 4
    for _ in range(rounds):
        for k in range(0, len(keys), group):
            some = [rng.choice(fams[f]) for f in keys[k : k + group]]
            if rng.random() < 0.5:
                # the same configuration twice, or a relative: objects that could share state
                a = rng.choice(some)
                some.append(a if rng.random() < 0.5 else rng.choice(fams[a[1], a[2]]))
            out.append(
                Case(
                    f"history/{n}",
                    "history",
                    [[strip(i) for i in some], 22 if quick else 60, rng.randint(0, 10**9)],
                    3 + sum(10 * i[5] for i in some),
                )
            )
            n += 1
        rng.shuffle(keys)
    for n in range(4 if quick else 24):
        some = [strip(rng.choice(fams[rng.choice(keys)])) for _ in range(4)]
        out.append(Case(f"seeds/{n}", "hash_seeds", [some, 16 if quick else 30, rng.randint(0, 10**9)], 12, 7))
    for n in range(12 if quick else 80):
        out.append(Case(f"functions/{n}", "functions", [25 if quick else 60, rng.randint(0, 10**9)], 4))
    for n in range(8 if quick else 40):
        out.append(Case(f"references/{n}", "references", [30 if quick else 60, rng.randint(0, 10**9)], 4))
    return out


def strip(it):
    return [it[1], it[2], it[3], it[4]]


# Fingerprints ---------------------------------------------------------------------------------------

POINTS = [
    {"x": Fraction(2, 7), "y": Fraction(3, 11), "z": Fraction(1, 5)},
    {"x": Fraction(-1, 3), "y": Fraction(5, 7), "z": Fraction(4, 9)},
    {"x": Fraction(1, 2), "y": Fraction(1, 13), "z": Fraction(-3, 8)},
]


def number(v):
    if isinstance(v, (int, Fraction)):
        return str(v)
    return str(O.mpf_round(v)) if hasattr(O, "mpf_round") else sympy.nstr(sympy.Float(str(v), 40), 30)


def expression(e):
    if not isinstance(e, (sympy.Basic,)):
        return f"{float(e):.11e}" if isinstance(e, float) else str(e)
    if e.has(sympy.Float):
        if e.free_symbols:
            return ["float"] + [f"{float(e.subs({s: sympy.Rational(p.get(str(s), 1)) for s in e.free_symbols})):.9e}" for p in POINTS]
        return f"{float(e):.9e}"
    names = {str(s) for s in e.free_symbols}
    if not names:
        if e.is_Rational:
            return str(e)
        try:
            return number(O.num(e))
        except O.NotAValue:
            return str(e)
    if not names <= {"x", "y", "z"}:
        return str(sympy.expand(e))
    try:
        out = [number(O.ev(e, p)) for p in POINTS]
    except (ZeroDivisionError, O.NotAValue):
        return str(e)
    return [",".join(sorted(names))] + out


def fp(v, depth=0):
    """A comparable description of what a query returned."""
    import symfem
    from symfem.basis_functions import BasisFunction
    from symfem.finite_element import FiniteElement
    from symfem.functions import AnyFunction
    from symfem.piecewise_functions import PiecewiseFunction
    from symfem.references import Reference

    if depth > 8:
        return "deep"
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return f"{v:.9e}"
    if isinstance(v, PiecewiseFunction):
        return ["piecewise"] + [[[fp(c, depth + 1) for c in p] for p in shape] + [fp(f, depth + 1)] for shape, f in v.pieces.items()]
    if isinstance(v, BasisFunction):
        return ["basis function", fp(v.get_function(), depth + 1)]
    if isinstance(v, AnyFunction):
        kind = "scalar" if v.is_scalar else "vector" if v.is_vector else "matrix"
        s = v.as_sympy()
        return [kind, fp(s, depth + 1)]
    if isinstance(v, sympy.MatrixBase):
        return ["matrix", list(v.shape), [expression(x) for x in v]]
    if isinstance(v, sympy.Basic):
        if isinstance(v, sympy.Tuple):
            return [fp(x, depth + 1) for x in v]
        return expression(v)
    if isinstance(v, dict):
        return ["dict"] + [[fp(a, depth + 1), fp(b, depth + 1)] for a, b in v.items()]
    if isinstance(v, (list, tuple)):
        return [fp(x, depth + 1) for x in v]
    if isinstance(v, Reference):
        return ["reference", type(v).__name__, [fp(x, depth + 1) for x in v.vertices]]
    if isinstance(v, FiniteElement):
        return ["element", type(v).__name__, v.order, fp(v.reference, depth + 1), fp(v.init_kwargs(), depth + 1)]
    if hasattr(v, "entity") and hasattr(v, "get_tex"):
        return ["functional", type(v).__name__, fp(v.entity, depth + 1)]
    if hasattr(v, "__next__"):
        return fp(list(v), depth + 1)
    return f"{type(v).__name__}"


def answer(query, objects):
    """(returned object, fingerprint) of one query; an exception is an answer too."""
    try:
        v = ask(query, objects)
    except Exception as e:
        return None, ["raises", type(e).__name__]
    try:
        return v, fp(v)
    except Exception as e:
        return None, ["unreadable", type(e).__name__]


# Queries --------------------------------------------------------------------------------------------


def build(item):
    """An object from its plain description."""
    import symfem

    kind = item[0]
    if kind == "element":
        _, cell, name, kw, order = item
        return symfem.create_element(cell, name, order, **{k: list(v) if isinstance(v, (list, tuple)) else v for k, v in kw.items()})
    if kind == "reference":
        _, cell, vertices = item
        if vertices is None:
            return symfem.create_reference(cell)
        return symfem.create_reference(cell, vertices=tuple(tuple(sympy.S(c) for c in v) for v in vertices))
    if kind == "function":
        from symfem.functions import parse_function_input
        from symfem.piecewise_functions import PiecewiseFunction

        _, form, data, tdim = item
        if form == "piecewise":
            return PiecewiseFunction({tuple(tuple(sympy.S(c) for c in p) for p in s): sym(f) for s, f in data}, tdim)
        return parse_function_input(sym(data))
    raise ValueError(kind)


def sym(d):
    if isinstance(d, str):
        return sympy.S(d)
    return tuple(sym(x) for x in d)


def picture(draw, ext):
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, "picture." + ext)
        draw(f)
        with open(f) as g:
            return g.read().replace(d, "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ask(query, objects):
    obj = objects[query[0]]
    what = query[1]
    args = query[2:]
    return MENU[what.split("/")[0]][what](obj, *args)


def xyz(tdim=3):
    from symfem.symbols import x

    return x[:tdim]


def target(e, k):
    """Vertices of another cell of the element's type."""
    vs = e.reference.vertices if hasattr(e, "reference") else e.vertices
    d = len(vs[0])
    if k == 0:
        return [tuple(2 * c for c in v) for v in vs]
    if k == 1:
        return [tuple(c + (1 if j == 0 else -1) * sympy.Rational(1, 2) for j, c in enumerate(v)) for v in vs]
    m = [[1, sympy.Rational(1, 2), 0], [0, 2, sympy.Rational(1, 3)], [0, 0, 1]]
    return [tuple(sum(m[i][j] * v[j] for j in range(d)) for i in range(d)) for v in vs]


def points(e, k):
    d = e.reference.tdim if hasattr(e, "reference") else e.tdim
    all_ = [
        [(Fraction(1, 3), Fraction(1, 4), Fraction(1, 5)), (Fraction(1, 2), Fraction(1, 6), Fraction(1, 7))],
        [(0, 0, 0), (Fraction(1, 9), Fraction(1, 8), Fraction(2, 3))],
        [(0.25, 0.125, 0.5)],
    ][k]
    return [tuple(sympy.Rational(c) if isinstance(c, Fraction) else c for c in p[:d]) for p in all_]


def basis(e, n):
    fs = e.get_basis_functions()
    return fs[n % len(fs)]


def dof(e, n):
    return e.dofs[n % len(e.dofs)]


def describe_factorisation(e):
    return [(t, list(f), list(p)) for t, f, p in e.get_tensor_factorisation()]


def map_with(e, k, own_basis, own_maps):
    vs = target(e, k)
    args = {}
    if own_basis:
        args["basis"] = list(e.get_basis_functions())
    if own_maps:
        args["forward_map"] = e.reference.get_map_to(vs)
        args["inverse_map"] = e.reference.get_inverse_map_to(vs)
    keep = fp([vs, args.get("basis")])
    out = e.map_to_cell(vs, **args)
    if fp([vs, args.get("basis")]) != keep:
        raise ArgumentChanged()
    return out


class ArgumentChanged(Exception):
    pass


def unchanged(call, *args):
    """Call with these arguments and make sure they are left alone."""
    before = fp(list(args))
    out = call(*args)
    if fp(list(args)) != before:
        raise ArgumentChanged()
    return out


ELEMENT = {
    "e/basis": lambda e: e.get_basis_functions(),
    "e/tensor": lambda e: e.get_basis_functions(use_tensor_factorisation=True),
    "e/function": lambda e, n: e.get_basis_function(n % e.space_dim),
    "e/tabulate": lambda e, k, o: unchanged(e.tabulate_basis, points(e, k), o),
    "e/tabulate float": lambda e, k: unchanged(e.tabulate_basis_float, points(e, k)),
    "e/dual": lambda e, i: e.get_dual_matrix(inverse=bool(i)),
    "e/dual uncached": lambda e, i: e.get_dual_matrix(inverse=bool(i), caching=False),
    "e/polys": lambda e: e.get_polynomial_basis(),
    "e/degree": lambda e: e.maximum_degree,
    "e/degrees": lambda e: [e.lagrange_subdegree, e.lagrange_superdegree, e.polynomial_subdegree, e.polynomial_superdegree],
    "e/entity dofs": lambda e, d, n: e.entity_dofs(d, n),
    "e/dof entities": lambda e: e.dof_entities(),
    "e/positions": lambda e: e.dof_plot_positions(),
    "e/directions": lambda e: e.dof_directions(),
    "e/name": lambda e: [e.name, e.names, e.references, e.continuity, e.value_type, e.min_order, e.max_order],
    "e/kwargs": lambda e: e.init_kwargs(),
    "e/dims": lambda e: [e.space_dim, e.domain_dim, e.range_dim, e.range_shape, e.order],
    "e/factorisation": describe_factorisation,
    "e/map": lambda e, k: map_with(e, k, False, False),
    "e/map with": lambda e, k: map_with(e, k, True, True),
    "e/map own basis": lambda e, k: map_with(e, k, True, False),
    "e/diagram": lambda e, ext: picture(lambda f: e.plot_dof_diagram(f), ext),
    "e/plot": lambda e, n, ext: picture(lambda f: e.plot_basis_function(n % e.space_dim, f), ext) if e.reference.tdim < 3 else None,
    "e/reference": lambda e: e.reference,
    "e/volume": lambda e: e.reference.volume(),
    "e/integral": lambda e, n: basis(e, n).integral(e.reference, xyz(), dummy(e)) if e.range_dim == 1 else None,
    "e/dof tex": lambda e, n: dof(e, n).get_tex(),
    "e/dof point": lambda e, n: [dof(e, n).dof_point(), dof(e, n).adjusted_dof_point(), dof(e, n).dof_direction()],
    "e/dof eval": lambda e, n, m: [dof(e, n).eval_symbolic(basis(e, m)), dof(e, n).eval(basis(e, m))],
    "e/dof entity": lambda e, n: [
        dof(e, n).entity,
        dof(e, n).entity_dim(),
        dof(e, n).entity_number(),
        dof(e, n).entity_tex(),
        dof(e, n).entity_definition(),
    ],
    "e/tex": lambda e, n: basis(e, n).as_tex(),
    "e/str": lambda e, n: str(basis(e, n)),
    "e/diff": lambda e, n, i: basis(e, n).diff(xyz()[i % e.reference.tdim]),
    "e/grad": lambda e, n: basis(e, n).grad(e.reference.tdim),
    "e/div": lambda e, n: basis(e, n).div(),
    "e/curl": lambda e, n: basis(e, n).curl(),
    "e/norm": lambda e, n: basis(e, n).norm(),
    "e/subs": lambda e, n, k: basis(e, n).subs(xyz(), points(e, k)[0] + (0,) * (3 - e.reference.tdim)),
    "e/floats": lambda e, n: basis(e, n).with_floats(),
    "e/arithmetic": lambda e, n, m: [basis(e, n) + basis(e, m), basis(e, n) - basis(e, m), 3 * basis(e, n), basis(e, n) / 2, -basis(e, m)],
    "e/lazy": lambda e, n, m: [e.get_basis_function(n % e.space_dim) + basis(e, m), e.get_basis_function(n % e.space_dim).as_sympy()],
    "e/equal": lambda e, n, m: [basis(e, n) == basis(e, m), e.get_basis_function(n % e.space_dim) == basis(e, n)],
    "e/iterate": lambda e, n: list(basis(e, n)),
    "e/shape": lambda e, n: [basis(e, n).shape, len(basis(e, n))],
    "e/component": lambda e, n: basis(e, n)[0],
    "e/pieces": lambda e, n: basis(e, n).pieces,
    "e/piece": lambda e, n: basis(e, n).get_piece(points(e, 0)[0]),
    "e/function degree": lambda e, n: basis(e, n).maximum_degree(e.reference),
}


def dummy(e):
    from symfem.symbols import t

    return t


REFERENCE = {
    "r/volume": lambda r: r.volume(),
    "r/jacobian": lambda r: r.jacobian(),
    "r/normal": lambda r: r.normal(),
    "r/tangent": lambda r: r.tangent(),
    "r/midpoint": lambda r: r.midpoint(),
    "r/entities": lambda r, d: [r.sub_entities(d), r.sub_entity_count(d)],
    "r/entity": lambda r, d, n: r.sub_entity(d, n),
    "r/entity on the reference": lambda r, d, n: r.sub_entity(d, n, True),
    "r/map to": lambda r, k: unchanged(r.get_map_to, target(r, k)),
    "r/map from": lambda r, k: unchanged(r.get_inverse_map_to, target(r, k)),
    "r/map to self": lambda r: r.get_map_to_self(),
    "r/map from self": lambda r: r.get_inverse_map_to_self(),
    "r/contains": lambda r, k: [r.contains(p) for p in points(r, k)],
    "r/limits": lambda r: r.integration_limits(xyz()),
    "r/lattice": lambda r, n: r.make_lattice(n),
    "r/lattice floats": lambda r, n: r.make_lattice_float(n),
    "r/lattice lines": lambda r, n: r.make_lattice_with_lines(n),
    "r/lattice float lines": lambda r, n: r.make_lattice_with_lines_float(n),
    "r/order": lambda r: r.z_ordered_entities(),
    "r/order extra": lambda r: r.z_ordered_entities_extra_dim(),
    "r/default": lambda r: r.default_reference(),
    "r/clockwise": lambda r: r.clockwise_vertices,
    "r/point": lambda r, k: r.get_point(points(r, k)[0]),
    "r/diagram": lambda r, ext: picture(lambda f: r.plot_entity_diagrams(f), ext),
    "r/at": lambda r, n: [r.at_vertex(r.vertices[n % len(r.vertices)]), r.on_edge(r.vertices[0]), r.on_face(r.vertices[0])],
    "r/self": lambda r: [r.vertices, r.edges, r.faces, r.volumes, r.origin, r.axes, r.scaled_axes(), r.name, r.tdim, r.gdim],
    "r/equal": lambda r: [r == r.default_reference(), r == r, hash(r) == hash(r)],
    "r/intersection": lambda r, d, n: r.sub_entity(d, n).intersection(r.sub_entity(d, 0)),
    "r/polys": lambda r: r.map_polyset_from_default([xyz()[0] ** 2, 1 + xyz()[0]]),
}

FUNCTION = {
    "f/sympy": lambda f: f.as_sympy(),
    "f/tex": lambda f: f.as_tex(),
    "f/str": lambda f: str(f),
    "f/diff": lambda f, i: f.diff(xyz()[i]),
    "f/directional": lambda f: f.directional_derivative((1, 2, 3)[: len(domain(f))]),
    "f/grad": lambda f, d: f.grad(d),
    "f/div": lambda f: f.div(),
    "f/curl": lambda f: f.curl(),
    "f/jacobian": lambda f, d: f.jacobian(d),
    "f/norm": lambda f: f.norm(),
    "f/det": lambda f: f.det(),
    "f/transpose": lambda f: f.transpose(),
    "f/neg": lambda f: -f,
    "f/twice": lambda f: [2 * f, f * 2, f / 3, f + f, f - f],
    "f/square": lambda f: f**2,
    "f/dot": lambda f: f.dot(f),
    "f/cross": lambda f: f.cross(f),
    "f/floats": lambda f: f.with_floats(),
    "f/subs": lambda f, k: f.subs(xyz(2), [(sympy.Rational(1, 3), sympy.Rational(1, 4)), (sympy.Symbol("a"), 2), (0, 0)][k]),
    "f/subs one": lambda f, i: f.subs(xyz()[i], sympy.Rational(2, 5)),
    "f/integral": lambda f, cell: f.integral(build(["reference", cell, None]), xyz(), dummy(None)),
    "f/degree": lambda f, cell: f.maximum_degree(build(["reference", cell, None])),
    "f/iterate": lambda f: list(f),
    "f/len": lambda f: [len(f), f.shape],
    "f/item": lambda f: f[0],
    "f/items": lambda f: f[0, 1],
    "f/pieces": lambda f: f.pieces,
    "f/piece": lambda f: f.get_piece((sympy.Rational(1, 5), sympy.Rational(1, 7))),
    "f/equal": lambda f: [f == f, f == 1, f == 0],
    "f/plot": lambda f, ext: picture(lambda g: f.plot(build(["reference", "triangle", None]), g), ext),
}
MENU = {"e": ELEMENT, "r": REFERENCE, "f": FUNCTION}


def domain(f):
    return (1, 2)


def query(r, i, kind, item):
    """A random query for object i."""
    if kind == "element":
        w = r.choice(sorted(ELEMENT))
        slow = {"e/diagram", "e/plot"}
        if w in slow and r.random() < 0.5:
            w = r.choice(sorted(ELEMENT))
        n = r.randrange(40)
        small = r.randrange(3)
        a = {
            "e/function": [n], "e/tabulate": [small, r.choice(["xyzxyz", "xyz,xyz", "xxyyzz", "xx,yy,zz", "zyx"])], "e/tabulate float": [small], "e/dual": [n % 2],
            "e/dual uncached": [n % 2], "e/entity dofs": [r.randrange(4), r.randrange(3)], "e/map": [small], "e/map with": [small], "e/map own basis": [small],
            "e/diagram": [r.choice(["svg", "tex"])], "e/plot": [n, r.choice(["svg", "tex"])], "e/integral": [n], "e/dof eval": [n, r.randrange(40)],
            "e/diff": [n, small], "e/subs": [n, small], "e/arithmetic": [n, r.randrange(40)], "e/lazy": [n, r.randrange(40)], "e/equal": [n, r.randrange(40)],
        }  # fmt: skip
        one = {
            "e/dof tex",
            "e/dof point",
            "e/dof entity",
            "e/tex",
            "e/str",
            "e/grad",
            "e/div",
            "e/curl",
            "e/norm",
            "e/floats",
            "e/iterate",
            "e/shape",
            "e/component",
            "e/pieces",
            "e/piece",
            "e/function degree",
        }
        return [i, w, *a.get(w, [n] if w in one else [])]
    if kind == "reference":
        w = r.choice(sorted(REFERENCE))
        k = r.randrange(3)
        a = {
            "r/entities": [k], "r/entity": [k, r.randrange(3)], "r/entity on the reference": [k, r.randrange(3)], "r/map to": [k], "r/map from": [k],
            "r/contains": [k], "r/lattice": [2 + k], "r/lattice floats": [2 + k], "r/lattice lines": [2 + k], "r/lattice float lines": [2 + k], "r/point": [k],
            "r/diagram": [r.choice(["svg", "tex"])], "r/at": [k], "r/intersection": [1, r.randrange(3)],
        }  # fmt: skip
        return [i, w, *a.get(w, [])]
    w = r.choice(sorted(FUNCTION))
    k = r.randrange(3)
    a = {
        "f/diff": [k], "f/grad": [2], "f/jacobian": [2], "f/subs": [k], "f/subs one": [k], "f/integral": ["triangle"], "f/degree": ["triangle"],
        "f/plot": [r.choice(["svg", "tex"])],
    }  # fmt: skip
    return [i, w, *a.get(w, [])]


# Fresh processes ------------------------------------------------------------------------------------


def fresh(items, queries):
    """Fingerprints of the queries, each asked of new objects after a new import, in a fork."""
    d = tempfile.mkdtemp()
    path = os.path.join(d, "answers")
    try:
        import symfem  # noqa: F401

        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(150)
                for m in [m for m in sys.modules if m == "symfem" or m.startswith("symfem.")]:
                    del sys.modules[m]
                sys.dont_write_bytecode = True
                os.environ["XDG_CACHE_HOME"] = os.path.join(d, "cache")
                out = {}
                for q in queries:
                    objs = {q[0]: build(items[q[0]])}
                    out[json.dumps(q)] = answer(q, objs)[1]
                with open(path, "w") as f:
                    json.dump(out, f)
                code = 0
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        if status != 0:
            return None
        with open(path) as f:
            return json.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def plain(v):
    return json.loads(json.dumps(v))


def run(ctx, label, items, queries):
    queries = [plain(q) for q in queries]
    distinct = [json.loads(q) for q in dict.fromkeys(json.dumps(q) for q in queries)]
    want = fresh(items, distinct)
    if want is None:
        ctx.skip("the fresh process did not finish")
        return
    objs = {i: build(it) for i, it in enumerate(items)}
    handed = []
    history = []
    for n, q in enumerate(queries):
        v, got = answer(q, objs)
        got = plain(got)
        k = json.dumps(q)
        history.append(q[1])
        if got[:1] == ["raises"] if isinstance(got, list) else False:
            ctx.seen("queries refused", (q[1], str(got)))
            if got == ["raises", "ArgumentChanged"]:
                ctx.violate("an argument was changed by the call", f"{label}: {items[q[0]]} {q}")
        same = got == want[k]
        ctx.expect(
            same, f"answer {q[1]}", f"the answer to '{q[1]}' depends on what was asked before",
            f"{items[q[0]]} {q} after {history[:-1][-12:]}: {show(got, want[k])}", key=(str(items[q[0]]), k, n),
        )  # fmt: skip
        if v is not None and same:
            handed.append((q, v, got))
    for q, v, got in handed:
        try:
            now = plain(fp(v))
        except Exception as e:
            now = ["unreadable", type(e).__name__]
        ctx.expect(
            now == got, "handed out objects", f"what '{q[1]}' handed out was changed by a later call", f"{items[q[0]]} {q}, later {history}: {show(now, got)}",
            key=(str(items[q[0]]), str(q)),
        )  # fmt: skip
    # objects asked again at the end, in another order
    for q in distinct[::-1][:8]:
        got = plain(answer(q, objs)[1])
        ctx.expect(
            got == want[json.dumps(q)], "asked again", f"the answer to '{q[1]}' depends on what was asked before",
            f"{items[q[0]]} {q} at the end: {show(got, want[json.dumps(q)])}", key=(str(items[q[0]]), str(q), "again"),
        )  # fmt: skip


def show(a, b):
    a, b = json.dumps(a), json.dumps(b)
    k = next((i for i, (c, d) in enumerate(zip(a, b)) if c != d), min(len(a), len(b)))
    return f"...{a[max(0, k - 60) : k + 100]}... instead of ...{b[max(0, k - 60) : k + 100]}..."


def history(ctx, some, steps, seed):
    r = random.Random(seed)
    items = [["element", *it] for it in some]
    queries = []
    for _ in range(steps):
        if queries and r.random() < 0.2:
            queries.append(r.choice(queries))
        else:
            i = r.randrange(len(items))
            queries.append(query(r, i, "element", items[i]))
    run(ctx, "/".join(f"{it[0]} {it[1]} {it[3]}" for it in some), items, queries)


CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid", "dual polygon(5)"]


def references(ctx, steps, seed):
    r = random.Random(seed)
    items = []
    for _ in range(3):
        cell = r.choice(CELLS)
        vs = None
        if r.random() < 0.5 and not cell.startswith("dual"):
            import symfem

            ref = symfem.create_reference(cell)
            vs = [[str(2 * c + 1) for c in v] for v in ref.vertices]
        items.append(["reference", cell, vs])
    queries = []
    for _ in range(steps):
        i = r.randrange(len(items))
        queries.append(query(r, i, "reference", items[i]))
    run(ctx, "references", items, queries)


TRI = [[["0", "0"], ["1", "0"], ["1/3", "1/3"]], [["1", "0"], ["0", "1"], ["1/3", "1/3"]], [["0", "1"], ["0", "0"], ["1/3", "1/3"]]]
SCALARS = ["x**2*y - 3*x + 1", "1", "x*y/2 + y**3", "-x", "(x + y)**2", "sqrt(2)*x - y", "x - 2*y + 1/3", "0"]


def functions(ctx, steps, seed):
    r = random.Random(seed)
    items = []
    for _ in range(3):
        form = r.choice(["scalar", "vector", "vector", "matrix", "piecewise", "piecewise vector"])
        s = lambda: r.choice(SCALARS)
        if form == "scalar":
            items.append(["function", "plain", s(), 2])
        elif form == "vector":
            items.append(["function", "plain", [s() for _ in range(r.choice([2, 2, 3]))], 2])
        elif form == "matrix":
            items.append(["function", "plain", [[s(), s()], [s(), s()]], 2])
        else:
            data = [[shape, [s(), s()] if form.endswith("vector") else s()] for shape in r.sample(TRI, 3)]
            items.append(["function", "piecewise", data, 2])
    queries = []
    for _ in range(steps):
        i = r.randrange(len(items))
        queries.append(query(r, i, "function", items[i]))
    run(ctx, "functions", items, queries)


SCRIPT = """
import json, sys
sys.path.insert(0, sys.argv[2])
import warnings
warnings.simplefilter("ignore")
from checks import p17
with open(sys.argv[1]) as f:
    items, queries = json.load(f)
objs = {i: p17.build(it) for i, it in enumerate(items)}
print("ANSWERS" + json.dumps([p17.answer(q, objs)[1] for q in queries]))
"""


def hash_seeds(ctx, some, steps, seed):
    """The same questions in new interpreters with other hash seeds, in other orders."""
    r = random.Random(seed)
    items = [["element", *it] for it in some] + [["reference", r.choice(CELLS), None]]
    queries = []
    for _ in range(steps):
        i = r.randrange(len(items))
        queries.append(plain(query(r, i, items[i][0], items[i])))
    want = fresh(items, queries)
    if want is None:
        ctx.skip("the fresh process did not finish")
        return
    d = tempfile.mkdtemp()
    try:
        for n in range(2):
            order = r.sample(queries, len(queries))
            path = os.path.join(d, "queries.json")
            with open(path, "w") as f:
                json.dump([items, order], f)
            verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
            hs = str(r.randint(1, 4 * 10**9))
            env = dict(os.environ, PYTHONPATH=REPO, XDG_CACHE_HOME=os.path.join(d, "cache"), PYTHONHASHSEED=hs)
            p = subprocess.run([sys.executable, "-c", SCRIPT, path, verif], env=env, capture_output=True, text=True, timeout=300)
            line = [x for x in p.stdout.splitlines() if x.startswith("ANSWERS")]
            if not ctx.expect(bool(line), "new interpreter", "a new interpreter fails", p.stderr[-500:], key=(seed, n)):
                continue
            for q, got in zip(order, json.loads(line[0][7:])):
                k = json.dumps(q)
                ctx.expect(
                    got == want[k], "answer under another hash seed", f"the answer to '{q[1]}' depends on the hash seed or the process",
                    f"{items[q[0]]} {q} with hash seed {hs}: {show(got, want[k])}", key=(str(items[q[0]]), k, hs),
                )  # fmt: skip
    finally:
        shutil.rmtree(d, ignore_errors=True)
