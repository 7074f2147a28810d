"""Elements of high order, with the exact arithmetic of the oracles in place of symfem's (slow) inversion of the dual matrix.

The polynomial set and the DOFs are symfem's; the matrix of the DOFs applied to the set and its inverse are the oracle's.
"""

from fractions import Fraction

from harness import catalogue as C
from harness import fem
from harness import oracle as O
from harness.core import Skip

SLOW = {"Bernstein"}  # the functionals alone take minutes


def orders(cost, extra):
    """[(cell, name, kw, order)] in the default variant: from the first order dearer than `cost` to `extra` beyond the catalogue."""
    best, top, var = {}, {}, {}
    for _, cell, name, kw, order, c, dim in C.select(10**9, pred=lambda c, n, k, o, kind: "dual" not in c and "macro" not in kind):
        if any(k != "variant" for k in kw) or name in SLOW:
            continue
        k = (cell, name)
        v = kw.get("variant", "equispaced")
        top[k] = max(top.get(k, -1), order)
        if v == "equispaced" or k not in var:
            var[k] = v
        if c <= cost:
            best[k] = max(best.get(k, -1), order)
        else:
            best.setdefault(k, -1)
    have = {}
    for _, cell, name, kw, order, c, dim in C.select(10**9):
        have.setdefault((cell, name), set()).add(order)
    out = []
    for (cell, name), t in sorted(top.items()):
        kw = {} if var[cell, name] == "equispaced" else {"variant": var[cell, name]}
        lo = min(have[cell, name])
        for order in range(max(best[cell, name] + 1, lo), t + extra + 1):
            if order <= t and order not in have[cell, name]:
                continue
            out.append((cell, name, kw, order))
    return out


def element(cell, name, kw, order, top):
    """The element, if it exists at that order and its dimension is at most `top`."""
    import symfem

    try:
        el = symfem.create_element(cell, name, order, **kw)
    except ValueError as e:
        if "cannot be created" in str(e):
            raise Skip("no such order")
        raise
    except (NotImplementedError, AssertionError) as e:
        raise Skip(f"no such order: {type(e).__name__}")
    if not hasattr(el, "dofs"):
        raise Skip("no functionals")
    if el.space_dim > top:
        raise Skip("too large")
    return el


def polys(el):
    return [fem.read(f) for f in el.get_polynomial_basis()]


def value(ps, q, t):
    """The value at a point of the reference cell (of the first piece that contains it)."""
    for vs, c in ps:
        if vs is None or fem.in_piece(vs, q, t):
            return fem.value(c, q)
    raise fem.OutOfModel("no piece contains the point")


def matrix(el, pb):
    """The DOFs applied to the polynomials: one row per DOF (raises OutOfModel)."""
    rows = []
    for d in el.dofs:
        F = fem.Functional.of(d)
        row = []
        for p in pb:
            v = F.ev(p)
            if any(not O.close(v[0], w) for w in v[1:]):
                raise fem.OutOfModel("two readings of the functional")
            row.append(v[0])
        rows.append(row)
    return rows


def inverse(m):
    """The inverse (None if singular)."""
    n = len(m)
    exact = all(isinstance(v, Fraction) for r in m for v in r)
    if not exact:
        m = [[O.tomp(v) for v in r] for r in m]
    one, zero = (Fraction(1), Fraction(0)) if exact else (O.mpf(1), O.mpf(0))
    a = [list(r) + [one if i == j else zero for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        if exact:
            p = next((i for i in range(c, n) if a[i][c] != 0), None)
        else:
            p = max(range(c, n), key=lambda i: abs(a[i][c]))
            if abs(a[p][c]) < O.mpf(10) ** -25:
                p = None
        if p is None:
            return None
        a[c], a[p] = a[p], a[c]
        q = a[c][c]
        a[c] = [v / q if v else v for v in a[c]]
        piv = a[c]
        for i in range(n):
            f = a[i][c]
            if i != c and f:
                a[i] = [v - f * w if w else v for v, w in zip(a[i], piv)]
    return [r[n:] for r in a]


def mappings_needed(el):
    return {d.mapping for d in el.dofs}


def transposed(inv):
    return [list(c) for c in zip(*inv)]


def combine(coef, vals):
    """sum_j coef[j] vals[j] of nested values."""
    if isinstance(vals[0], list):
        return [combine(coef, [v[i] for v in vals]) for i in range(len(vals[0]))]
    out = O.F0
    for c, v in zip(coef, vals):
        if c and v:
            out = O.add(out, O.mul(c, v))
    return out
