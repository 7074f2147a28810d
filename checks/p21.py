"""P21: tensor factorisations reproduce the element."""

import random
from fractions import Fraction

import sympy

from harness import catalogue as C
from harness import oracle as O
from harness.core import Case

PROPERTY = "P21"
TECHNIQUE = (
    "runtime monitor: products of the factors' basis functions, and the tensor basis, compared with the Ciarlet basis at exact points"
)
RULE = (
    "One case = one element with a random order of questions (basis, tensor basis, factorisation, on the same and on fresh objects). Where a "
    "factorisation is offered, the monitor multiplies the factors itself and compares every function with the Ciarlet basis at rational points "
    "that determine polynomials of the degree present. Elsewhere NoTensorProduct must be raised, whatever was asked before. Distinct = "
    "element x order x variant x question history."
)
ASSUMPTIONS = ["irrational values are compared to 50 digits"]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 500}
FLOOR = 1500

TOP = {"quick": {"quadrilateral": 6, "hexahedron": 3}, "thorough": {"quadrilateral": 10, "hexahedron": 5}}
# highest orders of the other variants (Gauss-Lobatto points or others)
OTHER = {
    "quick": {("quadrilateral", True): 3, ("quadrilateral", False): 2, ("hexahedron", True): 2, ("hexahedron", False): 1},
    "thorough": {("quadrilateral", True): 6, ("quadrilateral", False): 5, ("hexahedron", True): 3, ("hexahedron", False): 2},
}
VARIANTS = ["equispaced", "gll", "legendre", "lobatto", "chebyshev", "radau", "gl"]


def cases(tier, seed):
    rng = random.Random(f"p21/{seed}")
    out = []

    def add(name, fn, args, cost):
        out.append(Case(name, fn, [*args, rng.randint(0, 10**9)], cost))

    for cell, top in TOP[tier].items():
        for order in range(top + 1):
            for v in VARIANTS:
                t = 2 if cell == "quadrilateral" else 3
                if v != "equispaced" and order > OTHER[tier][cell, v == "gll"]:
                    continue
                add(f"q/{cell}/{order}/{v}", "question", [cell, "Q", {"variant": v}, order], (order + 1) ** (2 * t) / 300 + 0.5)
    for cell in TOP[tier]:
        for order in (1, 2):
            for n in range(3):
                add(f"cells/{cell}/{order}/{n}", "other_cell", [cell, order], 2)
    rest = [it for it in C.select(0.5 if tier == "quick" else 4)]
    groups = {}
    for it in rest:
        groups.setdefault((it[1], it[2]), []).append(it)
    for k in sorted(groups):
        items = groups[k]
        rng.shuffle(items)
        items = items[: 3 if tier == "quick" else 12]
        add(f"others/{k[0]}/{k[1]}", "others", [[[i[1], i[2], i[3], i[4]] for i in items]], 1 + sum(i[5] for i in items))
    return out


def make(cell, name, kw, order, vertices=None):
    import symfem

    if vertices is None:
        return symfem.create_element(cell, name, order, **kw)
    return symfem.create_element(cell, name, order, vertices=vertices, **kw)


def offered(e):
    """The factorisation, or None."""
    from symfem.finite_element import NoTensorProduct

    try:
        return e.get_tensor_factorisation()
    except NoTensorProduct:
        return None


def tensor(e):
    from symfem.finite_element import NoTensorProduct

    try:
        return e.get_basis_functions(use_tensor_factorisation=True)
    except NoTensorProduct:
        return None


def pts(r, cell, n):
    d = 2 if cell == "quadrilateral" else 3
    return [[Fraction(r.randint(-40, 60), r.choice([7, 11, 13, 17])) for _ in range(d)] for _ in range(n)]


def values(f, p):
    from harness import fem

    v = f.as_sympy()
    if isinstance(v, (tuple, list, sympy.MatrixBase)):
        return [O.ev(c, dict(zip("xyz", p))) for c in v]
    return [O.ev(v, dict(zip("xyz", p)))]


def same(a, b):
    return len(a) == len(b) and all(O.close(x, y) for x, y in zip(a, b))


def reference_table(e, points):
    return [[values(f, p) for p in points] for f in e.get_basis_functions()]


def singular(cell, name, kw, order):
    """No basis to compare with (P20's subject), or not offered at all."""
    import numpy

    e = make(cell, name, kw, order)
    if not hasattr(e, "get_dual_matrix"):
        return False
    m = e.get_dual_matrix(caching=False)
    a = numpy.array([[float(x) for x in m.row(i)] for i in range(m.rows)])
    return m.rows != m.cols or numpy.linalg.matrix_rank(a) < m.rows


def product_table(ctx, label, e, fact, points):
    """The factors multiplied by the monitor."""
    table = {}
    for t_type, factors, perm in fact:
        if not ctx.expect(t_type == "scalar", "kind of factorisation", "unknown kind of tensor product", f"{label}: {t_type}", key=label):
            return None
        if not ctx.expect(len(factors) == e.reference.tdim, "number of factors", "wrong number of factors", label, key=label):
            return None
        bases = [f.get_basis_functions() for f in factors]
        for f in factors:
            ctx.expect(f.reference.tdim == 1, "factors are on intervals", "a factor is not on an interval", label, key=label)
        index = [[]]
        for b in bases:
            index = [i + [j] for i in index for j in range(len(b))]
        vals = [[[O.ev(g.as_sympy(), {"x": p[k]}) for p in points] for g in b] for k, b in enumerate(bases)]
        ctx.expect(
            len(index) == len(perm),
            "permutation length",
            "permutation of the wrong length",
            f"{label}: {len(perm)} for {len(index)}",
            key=label,
        )
        for pos, i in zip(perm, index):
            row = []
            for n in range(len(points)):
                v = O.F1
                for k, j in enumerate(i):
                    v = O.mul(v, vals[k][j][n])
                row.append(v)
            ctx.expect(pos not in table, "permutation is one to one", "two products in one place", f"{label}: {pos}", key=(label, pos))
            table[pos] = row
    return table


def question(ctx, cell, name, kw, order, seed):
    r = random.Random(seed)
    label = C.label(cell, name, kw, order)
    try:
        e = make(cell, name, kw, order)
        if len(e.dofs) == 0 or singular(cell, name, kw, order):
            ctx.skip("no basis")
            return
    except (ValueError, NotImplementedError, AssertionError) as ex:
        ctx.skip(f"not offered: {type(ex).__name__}")
        return
    points = pts(r, cell, max(4, min(14, order + 3)))
    want = reference_table(make(cell, name, kw, order), points)
    ask = ["plain", "tensor", "factorisation", "plain", "tensor"]
    for _ in range(2):
        r.shuffle(ask)
        e = make(cell, name, kw, order)
        history = []
        for q in ask:
            history.append(q)
            h = ">".join(history)
            if q == "plain":
                got = [[values(f, p) for p in points] for f in e.get_basis_functions()]
                ok = len(got) == len(want) and all(same(x, y) for a, b in zip(got, want) for x, y in zip(a, b))
                ctx.expect(ok, "plain basis", "the plain basis depends on what was asked before", f"{label}: {h}", key=(label, h))
            elif q == "tensor":
                fs = tensor(e)
                fact = offered(make(cell, name, kw, order))
                ctx.expect(
                    (fs is None) == (fact is None),
                    "refusal",
                    "a tensor basis without a factorisation, or the reverse",
                    f"{label}: {h}",
                    key=(label, h),
                )
                if fs is None:
                    continue
                ctx.expect(len(fs) == len(want), "number of tensor functions", "wrong number of tensor basis functions", label, key=label)
                for i, (f, w) in enumerate(zip(fs, want)):
                    ok = all(same(values(f, p), v) for p, v in zip(points, w))
                    if not ctx.expect(
                        ok,
                        "tensor basis",
                        "the tensor basis is not the Ciarlet basis",
                        f"{label} ({h}): function {i} is {f}",
                        key=(label, h, i),
                    ):
                        break
            else:
                fact = offered(e)
                if fact is None:
                    continue
                table = product_table(ctx, label, e, fact, points)
                if table is None:
                    continue
                ctx.expect(
                    sorted(table) == list(range(len(want))),
                    "permutation",
                    "not a permutation of the basis",
                    f"{label}: {sorted(table)}",
                    key=label,
                )
                for i, w in enumerate(want):
                    if i not in table:
                        continue
                    ok = all(O.close(a, b[0]) for a, b in zip(table[i], w))
                    if not ctx.expect(
                        ok,
                        "products of factors",
                        "the factors' products are not the Ciarlet basis",
                        f"{label}: function {i}",
                        key=(label, h, i),
                    ):
                        break


def other_cell(ctx, cell, order, seed):
    """On another cell the tensor basis, if offered, is the basis there."""
    import symfem

    r = random.Random(seed)
    d = 2 if cell == "quadrilateral" else 3
    ref = symfem.create_reference(cell)
    scale = [sympy.Rational(r.choice([1, 2, 3, 5]), r.choice([1, 2, 3])) for _ in range(d)]
    shift = [sympy.Rational(r.randint(-3, 3), 2) for _ in range(d)]
    vs = tuple(tuple(s * c + t for s, c, t in zip(scale, v, shift)) for v in ref.vertices)
    label = f"{cell}/Q/{order} on {vs}"
    points = pts(r, cell, 6)
    want = reference_table(make(cell, "Q", {}, order, vs), points)
    e = make(cell, "Q", {}, order, vs)
    fs = tensor(e)
    ctx.seen("tensor basis on another cell" if fs is not None else "no tensor basis on another cell", label)
    if fs is None:
        ctx.expect(offered(e) is None, "refusal on another cell", "a factorisation without a tensor basis", label, key=label)
        return
    ok = len(fs) == len(want) and all(same(values(f, p), v) for f, w in zip(fs, want) for p, v in zip(points, w))
    ctx.expect(
        ok,
        "tensor basis on another cell",
        "the tensor basis on another cell is not the basis there",
        f"{label}: {[str(f) for f in fs]}",
        key=label,
    )


def others(ctx, items, seed):
    """Elements without a factorisation say so, whatever was asked before."""
    from symfem.finite_element import NoTensorProduct

    r = random.Random(seed)
    for cell, name, kw, order in items:
        label = C.label(cell, name, kw, order)
        try:
            e = make(cell, name, kw, order)
            if offered(e) is not None:
                ctx.seen("offers a factorisation", label)
                if cell in ("quadrilateral", "hexahedron"):
                    question(ctx, cell, name, kw, order, r.randint(0, 10**9))
                continue
        except NotImplementedError:
            continue
        for first in ("fresh", "after the plain basis"):
            e = make(cell, name, kw, order)
            if first != "fresh":
                if hasattr(e, "dofs") and (len(e.dofs) == 0 or singular(cell, name, kw, order)):
                    continue
                e.get_basis_functions()
            try:
                got = e.get_basis_functions(use_tensor_factorisation=True)
                raised = None
            except NoTensorProduct:
                raised, got = "NoTensorProduct", None
            except Exception as ex:
                raised, got = type(ex).__name__, None
            ctx.expect(
                raised == "NoTensorProduct", f"no factorisation ({first})", "no NoTensorProduct from an element without a factorisation",
                f"{label} ({first}): {raised or 'a basis'}", key=(label, first),
            )  # fmt: skip
