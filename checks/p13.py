"""P13: the polynomial sets span the named spaces; orthogonal, Lobatto and dual bases satisfy what defines them."""

import math
import random
from fractions import Fraction
from itertools import product

import sympy

from harness import oracle as O
from harness import spaces as S
from harness.core import Case
from harness.oracle import F0, F1, Poly

PROPERTY = "P13"
TECHNIQUE = "runtime monitor: exact span, Gram matrix and derivative oracles on everything symfem.polynomials returns"
RULE = (
    "One case = one function of symfem.polynomials at one order (and number of derivatives) in one choice of variables. Everything "
    "returned is converted to an exact polynomial (on the pyramid a Laurent polynomial in collapsed coordinates); its span, "
    "independence, Gram matrix under the exact integral, derivatives, boundary values and duality are compared with the definition. "
    "Distinct = function x cell x order x variables x fact."
)
ASSUMPTIONS = ["square roots in normalised bases are compared to 50 digits"]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 300}
FLOOR = 3000

CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]
# highest (order, derivatives) of the orthogonal bases
ORTHO = {
    "quick": {"interval": [(8, 3), (3, 5)], "triangle": [(5, 2), (2, 4)], "quadrilateral": [(4, 2), (2, 3)],
              "tetrahedron": [(4, 1), (3, 3)], "hexahedron": [(2, 2)], "prism": [(2, 2), (3, 0)], "pyramid": [(3, 1), (4, 0), (2, 3)]},
    "thorough": {"interval": [(16, 3), (6, 7)], "triangle": [(8, 2), (4, 6)], "quadrilateral": [(6, 3), (3, 5)],
                 "tetrahedron": [(6, 1), (5, 3)], "hexahedron": [(3, 4), (4, 0)], "prism": [(3, 3), (4, 2)], "pyramid": [(5, 0), (4, 2), (3, 4)]},
}  # fmt: skip
ORTHONORMAL = {
    "quick": {"interval": 5, "triangle": 3, "quadrilateral": 3, "tetrahedron": 2, "hexahedron": 2, "prism": 2, "pyramid": 2},
    "thorough": {"interval": 8, "triangle": 5, "quadrilateral": 4, "tetrahedron": 4, "hexahedron": 2, "prism": 3, "pyramid": 3},
}


def cases(tier, seed):
    rng = random.Random(f"p13/{seed}")
    out = []

    def add(name, fn, args, cost):
        out.append(Case(name, fn, [*args, rng.randint(0, 10**9)], cost))

    top = {1: 10, 2: 7, 3: 5} if tier == "quick" else {1: 16, 2: 11, 3: 8}
    for fn in SETS:
        for d in SETS[fn][0]:
            for k in range(top[d] + 1):
                if k < SETS[fn][1]:
                    continue
                if fn.endswith("vector") and k > top[d] - 2:
                    continue
                add(f"set/{fn}/{d}/{k}", "sets", [fn, d, k], 0.2 + k * d / 4)
    for cell in CELLS:
        for k in range(5 if tier == "quick" else 7):
            add(f"cell/{cell}/{k}", "cellset", [cell, k], 1)
        seen = set()
        for top_order, derivs in ORTHO[tier][cell]:
            for k in range(top_order + 1):
                if (k, derivs) not in seen:
                    seen.add((k, derivs))
                    add(
                        f"orthogonal/{cell}/{k}/{derivs}", "orthogonal", [cell, k, derivs], 1 + k * k * O.TDIM[cell] ** 2 * (derivs + 1) / 8
                    )
        for k in range(ORTHONORMAL[tier][cell] + 1):
            add(f"orthonormal/{cell}/{k}", "orthonormal", [cell, k], 1 + k * k * O.TDIM[cell])
    lob = {"interval": 8, "quadrilateral": 3, "hexahedron": 2} if tier == "quick" else {"interval": 12, "quadrilateral": 5, "hexahedron": 3}
    for cell, top_order in lob.items():
        for k in range(1, top_order + 1):
            for ends in (True, False):
                add(f"lobatto/{cell}/{k}/{ends}", "lobatto", [cell, k, ends], 1 + k * O.TDIM[cell])
    for cell in CELLS[:-1]:
        for k in range(3 if tier == "quick" else 20):
            add(f"dual/{cell}/{k}", "l2dual", [cell], 3)
    add("refusals", "refusals", [], 1)
    return out


# ---------------------------------------------------------------- reading

VARS = [("x", "y", "z"), ("a", "b", "c"), ("y", "z", "x"), ("t0", "t1", "t2"), ("z", "x", "y")]


def choose_vars(r, d):
    """The default variables (None), or others: new ones or the default ones in another order."""
    names = r.choice(VARS)
    if names == VARS[0]:
        return None, names
    form = tuple if r.random() < 0.5 else list
    return form(sympy.Symbol(n) for n in names[:d]), names


def comps_of(f):
    s = f if isinstance(f, sympy.Basic) and not hasattr(f, "as_sympy") else f.as_sympy()
    return list(s) if isinstance(s, (tuple, list, sympy.Tuple)) else s


def poly_of(f, names):
    s = comps_of(f)
    if isinstance(s, list):
        return [O.to_poly(i, names) for i in s]
    return O.to_poly(s, names)


def laurent(expr, names):
    """x = u w, y = v w, z = 1 - w: functions on the pyramid as Laurent polynomials in (u, v, w)."""
    env = {
        names[0]: Poly.mono((1, 0, 1)),
        names[1]: Poly.mono((0, 1, 1)),
        names[2]: Poly.const(3, 1) - Poly.mono((0, 0, 1)),
    }
    memo = {}

    def rec(e):
        if e in memo:
            return memo[e]
        if e.is_Symbol:
            out = env[e.name]
        elif e.is_number:
            out = Poly.const(3, O.num(e))
        elif e.is_Add:
            out = Poly(3)
            for a in e.args:
                out = out + rec(a)
        elif e.is_Mul:
            out = Poly.const(3, 1)
            for a in e.args:
                out = out * rec(a)
        elif e.is_Pow and e.exp.is_Integer:
            b, n = rec(e.base), int(e.exp)
            if n >= 0:
                out = b**n
            else:
                c = {k: v for k, v in b.c.items() if not O.is_zero(v)}
                if len(c) != 1:
                    raise ValueError(f"cannot divide by {e.base}")
                ((k, v),) = c.items()
                out = Poly(3, {tuple(i * n for i in k): O.div(F1, v ** (-n))})
        else:
            raise ValueError(f"unexpected {e}")
        memo[e] = out
        return out

    return rec(sympy.sympify(expr))


def laurent_diff(p, i):
    def d(q, j):
        out = {}
        for k, v in q.c.items():
            if k[j]:
                e = list(k)
                e[j] -= 1
                out[tuple(e)] = O.mul(v, k[j])
        return Poly(3, out)

    def times(q, *e):
        return Poly(3, {tuple(a + b for a, b in zip(k, e)): v for k, v in q.c.items()})

    if i < 2:
        return times(d(p, i), 0, 0, -1)
    return times(d(p, 0), 1, 0, -1) + times(d(p, 1), 0, 1, -1) - d(p, 2)


class Space:
    """The arithmetic of functions on one cell."""

    def __init__(self, cell, names):
        self.cell, self.t = cell, O.TDIM[cell]
        self.names = tuple(names)
        self.pyr = cell == "pyramid"

    def read(self, f):
        s = comps_of(f)
        if self.pyr:
            return laurent(s, self.names)
        return O.to_poly(s, self.names)

    def diff(self, p, i):
        return laurent_diff(p, i) if self.pyr else p.diff(i)

    def integral(self, p):
        if self.pyr:
            out = F0
            for k, v in p.c.items():
                out = O.add(out, O.mul(v, Fraction(1, (k[0] + 1) * (k[1] + 1) * (k[2] + 3))))
            return out
        t = self.t
        return O.integrate_ref(Poly(t, {tuple(k[:t]): v for k, v in p.c.items()}), self.cell)

    def expected(self, k):
        if self.pyr:
            return [Poly.mono((i, j, max(i, j) + m)) for i in range(k + 1) for j in range(k + 1) for m in range(k + 1 - max(i, j))]
        return S.lag(self.cell, k)


def is_zero_poly(p):
    return all(O.is_zero(v) for v in p.c.values())


def same_poly(p, q):
    keys = set(p.c) | set(q.c)
    return all(O.close(p.c.get(k, F0), q.c.get(k, F0)) for k in keys)


def tagged(names):
    return "default" if names == VARS[0] else "permuted" if set(names) == set(VARS[0]) else "renamed"


# ---------------------------------------------------------------- sets

VEC = lambda f: lambda d, k: S.vec(f(d, k), d)  # noqa: E731


def hom(p, k):
    return all(sum(e) == k for i in S.flatten(p) for e in i.c)


def q_minus(d, k):
    """Q_{k, k-1, ..., k-1} x ... : the H(div) spaces on tensor cells."""
    return S.comps([S.Qd([k if i == j else k - 1 for j in range(d)]) for i in range(d)])


def q_minus_curl(d, k):
    return S.comps([S.Qd([k - 1 if i == j else k for j in range(d)]) for i in range(d)])


def sminus(d, k):
    return [S.m(e) for e in product(range(k + d + 1), repeat=d) if sum(e) > k and S.superlinear(e) <= k]


def none(d, k):
    return []


# name: (dimensions, lowest order, functions it is added to, span of both together, direct?)
SETS = {
    "polynomial_set_1d": ((1, 2, 3), 0, none, lambda d, k: S.P(d, k)),
    "polynomial_set_vector": ((1, 2, 3), 0, none, lambda d, k: S.vec(S.P(d, k), d)),
    "quolynomial_set_1d": ((1, 2, 3), 0, none, lambda d, k: S.Q(d, k)),
    "quolynomial_set_vector": ((1, 2, 3), 0, none, lambda d, k: S.vec(S.Q(d, k), d)),
    "Hdiv_polynomials": ((2, 3), 1, lambda d, k: S.vec(S.P(d, k - 1), d), lambda d, k: S.RT(d, k)),
    "Hcurl_polynomials": ((2, 3), 1, lambda d, k: S.vec(S.P(d, k - 1), d), lambda d, k: S.N1(d, k)),
    "Hdiv_quolynomials": ((2, 3), 1, lambda d, k: S.vec(S.Q(d, k - 1), d), q_minus),
    "Hcurl_quolynomials": ((2, 3), 1, lambda d, k: S.vec(S.Q(d, k - 1), d), q_minus_curl),
    "serendipity_set_1d": ((1, 2, 3), 1, lambda d, k: S.P(d, k), lambda d, k: S.serendipity(d, k)),
    "serendipity_set_vector": ((1, 2, 3), 1, lambda d, k: S.vec(S.P(d, k), d), lambda d, k: S.vec(S.serendipity(d, k), d)),
    "Hdiv_serendipity": ((2, 3), 1, lambda d, k: S.vec(S.P(d, k), d), lambda d, k: S.Sdiv(d, k)),
    "Hcurl_serendipity": ((2, 3), 1, lambda d, k: S.vec(S.P(d, k), d), lambda d, k: S.Scurl(d, k)),
    "prism_polynomial_set_1d": ((3,), 0, none, lambda d, k: S.W(k)),
    "prism_polynomial_set_vector": ((3,), 0, none, lambda d, k: S.vec(S.W(k), 3)),
}


def arguments(fn, d, k, r):
    if fn.endswith("_1d"):
        return [d, k], d
    rdim = d
    if fn.endswith("vector"):
        rdim = r.choice([d, 2, 3, 1, 4])
    return [d, rdim, k], rdim


def sets(ctx, fn, d, k, seed):
    from symfem import polynomials

    r = random.Random(seed)
    for _ in range(2):
        args, rdim = arguments(fn, d, k, r)
        vs, names = choose_vars(r, d)
        extra = [] if vs is None else [vs]
        got = getattr(polynomials, fn)(*args, *extra)
        what = f"{fn}"
        key = f"{fn}|{d}|{k}|{tagged(names)}"
        fs = [poly_of(f, names) for f in got]
        scalar = fn.endswith("_1d")
        ctx.expect(
            all((not isinstance(f, list)) if scalar else (isinstance(f, list) and len(f) == rdim) for f in fs),
            "shape", f"shape:{what}", f"{[type(f) for f in got[:3]]}", key=f"{key}|shape",
        )  # fmt: skip
        base, want = SETS[fn][2](d, k), SETS[fn][3](d, k)
        if fn.endswith("vector"):
            one = fn.replace("vector", "1d") if not fn.startswith("prism") else "prism_polynomial_set_1d"
            base, want = (S.vec(SETS[one][i](d, k), rdim) for i in (2, 3))
        dim = S.dim(want) - (S.dim(base) if base else 0)
        ctx.expect(
            len(fs) == dim and S.same_span(fs + base, want), "span", f"span:{what}",
            f"{fn}{tuple(args)} in {names[:d]}: {len(fs)} functions for {dim}; {[str(f) for f in got[:4]]}", key=key,
        )  # fmt: skip
        ctx.expect(not fs or S.dim(fs) == len(fs), "independent", f"independent:{what}", f"{len(fs)} functions", key=f"{key}|independent")
        if fn in ("Hdiv_polynomials", "Hcurl_polynomials"):
            ctx.expect(all(hom(f, k) for f in fs), "degree", f"homogeneous:{what}", f"{got}", key=f"{key}|homogeneous")
        if fn == "Hcurl_polynomials":
            bad = [f for f in fs if not is_zero_poly(sum((S.X[i] * f[i] for i in range(d)), Poly(3)))]
            ctx.expect(not bad, "orthogonal to x", f"x.p = 0:{what}", f"{bad[:1]}", key=f"{key}|x.p")
        if fn == "Hdiv_polynomials":
            bad = [f for f in fs if not all(is_zero_poly(S.X[i] * f[j] - S.X[j] * f[i]) for i in range(d) for j in range(i))]
            ctx.expect(not bad, "parallel to x", f"p parallel to x:{what}", f"{bad[:1]}", key=f"{key}|parallel")


def cellset(ctx, cell, k, seed):
    """polynomial_set(cell, order) and the pyramid's sets."""
    from symfem import polynomials

    r = random.Random(seed)
    d = O.TDIM[cell]
    for _ in range(3):
        vs, names = choose_vars(r, d)
        sp = Space(cell, names)
        extra = [] if vs is None else [vs]
        got = polynomials.polysets.polynomial_set(cell, k, *extra)
        fs = [sp.read(f) for f in got]
        want = sp.expected(k)
        key = f"polynomial_set|{cell}|{k}|{tagged(names)}"
        ctx.expect(
            len(fs) == len(want) == S.dim(fs) and S.same_span(fs, want), "span", f"span:polynomial_set {cell}", f"order {k}: {got[:5]}",
            key=key,
        )  # fmt: skip
        if cell == "pyramid":
            rdim = r.choice([1, 2, 3])
            got = polynomials.pyramid_polynomial_set_vector(3, rdim, k, *extra)
            fs = [[sp.read(c) for c in comps_of(f)] for f in got]
            ctx.expect(
                len(fs) == rdim * len(want) == S.dim(fs) and S.same_span(fs, S.vec(want, rdim)), "span", "span:pyramid_polynomial_set_vector",
                f"order {k}", key=f"pyramid_polynomial_set_vector|{k}|{tagged(names)}",
            )  # fmt: skip


# ---------------------------------------------------------------- orthogonal bases


def multi_indices(d, n):
    """The derivatives in the order the tables list them: by degree, then by the powers of the later variables."""
    out = [e for e in product(range(n + 1), repeat=d) if sum(e) <= n]
    return sorted(out, key=lambda e: tuple(sum(e[i:]) for i in range(d)))


def derivatives(ctx, what, sp, table, derivs, key):
    d = sp.t
    idx = multi_indices(d, derivs)
    ok = ctx.expect(
        len(table) == len(idx) == math.comb(derivs + d, d) and all(len(row) == len(table[0]) for row in table),
        "table", f"size of the table:{what}", f"{len(table)} rows, {[len(r) for r in table[:3]]}", key=f"{key}|size",
    )  # fmt: skip
    if not ok:
        return None
    base = [sp.read(f) for f in table[0]]
    pos = {e: i for i, e in enumerate(idx)}
    exact = {idx[0]: base}
    for e in idx[1:]:
        i = next(j for j in range(d) if e[j])
        low = tuple(a - (j == i) for j, a in enumerate(e))
        exact[e] = [sp.diff(p, i) for p in exact[low]]
        got = [sp.read(f) for f in table[pos[e]]]
        bad = [j for j, (a, b) in enumerate(zip(got, exact[e])) if not same_poly(a, b)]
        ctx.expect(
            not bad, "derivative", f"derivative:{what}", f"entry {pos[e]} (derivative {e}) of function {bad[:1]} is wrong", key=f"{key}|d{e}",
        )  # fmt: skip
    return base


def gram(ctx, what, sp, base, key, r, normal=False):
    pairs = [(i, j) for i in range(len(base)) for j in range(i + 1)]
    if len(pairs) > 1200:
        pairs = [(i, i) for i in range(len(base))] + r.sample(pairs, 1100)
    bad = []
    for i, j in pairs:
        v = sp.integral(base[i] * base[j])
        if i == j:
            if O.is_zero(v) or O.tomp(v) < 0 or (normal and not O.close(v, F1)):
                bad.append((i, j, v))
        elif not O.is_zero(v):
            bad.append((i, j, v))
    ctx.expect(not bad, "gram", f"orthogonality:{what}", f"{len(bad)} pairs, e.g. {bad[:2]}", key=key)


def hierarchy(ctx, what, sp, base, k, key):
    """On intervals and simplices the functions of degree m come after all of lower degree."""
    if sp.cell not in ("interval", "triangle", "tetrahedron"):
        return
    at = 0
    for m in range(k + 1):
        n = math.comb(m + sp.t, sp.t)
        degs = [max((sum(e) for e, v in p.c.items() if not O.is_zero(v)), default=-1) for p in base[at:n]]
        ctx.expect(
            all(g == m for g in degs), "degree", f"degree order:{what}", f"functions {at}..{n - 1} have degrees {degs}", key=f"{key}|{m}"
        )
        at = n


def orthogonal(ctx, cell, k, derivs, seed):
    from symfem import polynomials

    r = random.Random(seed)
    vs, names = choose_vars(r, O.TDIM[cell])
    sp = Space(cell, names)
    what = f"orthogonal_basis {cell}"
    key = f"{what}|{k}|{tagged(names)}"
    table = polynomials.orthogonal_basis(cell, k, derivs, vs)
    base = derivatives(ctx, what, sp, table, derivs, key)
    if base is None:
        return
    want = sp.expected(k)
    ctx.expect(
        len(base) == len(want) and S.same_span(base, want), "span", f"span:{what}", f"order {k}: {len(base)} functions", key=f"{key}|span"
    )
    gram(ctx, what, sp, base, f"{key}|gram", r)
    hierarchy(ctx, what, sp, base, k, key)


def orthonormal(ctx, cell, k, seed):
    from symfem import polynomials

    r = random.Random(seed)
    vs, names = choose_vars(r, O.TDIM[cell])
    sp = Space(cell, names)
    derivs = r.choice([0, 1, 2]) if k < 3 else r.choice([0, 1])
    what = f"orthonormal_basis {cell}"
    key = f"{what}|{k}|{tagged(names)}"
    table = polynomials.orthonormal_basis(cell, k, derivs, vs)
    base = derivatives(ctx, what, sp, table, derivs, key)
    if base is None:
        return
    want = sp.expected(k)
    ctx.expect(len(base) == len(want), "span", f"size:{what}", f"order {k}: {len(base)} functions", key=f"{key}|size")
    gram(ctx, what, sp, base, f"{key}|gram", r, normal=True)
    hierarchy(ctx, what, sp, base, k, key)
    # orthonormal functions in a space of the right dimension: it remains that they are in it
    allowed = {e for p in want for e in p.c}
    ctx.expect(
        all(e in allowed for p in base for e, v in p.c.items() if not O.is_zero(v)) or sp.pyr, "span", f"degrees:{what}", f"order {k}",
        key=f"{key}|span",
    )  # fmt: skip
    if vs is None and k < 3:
        # asking for the plain basis again still gives the plain basis
        again = polynomials.orthogonal_basis(cell, k, 0)[0]
        plain = [sp.read(f) for f in again]
        ctx.expect(
            all(all(isinstance(v, (int, Fraction)) for v in p.c.values()) for p in plain), "fresh", f"orthogonal basis after orthonormal:{cell}",
            f"{again[:3]}", key=f"{key}|fresh",
        )  # fmt: skip


# ---------------------------------------------------------------- Lobatto and dual functions


def lobatto(ctx, cell, k, ends, seed):
    from symfem import polynomials

    d = O.TDIM[cell]
    sp = Space(cell, VARS[0])
    what = f"lobatto_basis {cell}"
    key = f"{what}|{k}|{ends}"
    got = polynomials.lobatto_basis(cell, k, ends) if not ends else polynomials.lobatto_basis(cell, k)
    fs = [sp.read(f) for f in got]
    n = (k + 1) if ends else max(k - 1, 0)
    ctx.expect(len(fs) == n**d, "size", f"size:{what}", f"order {k}: {len(fs)} functions", key=f"{key}|size")
    full = [sp.read(f) for f in polynomials.lobatto_basis("interval", k)]
    if d == 1 and ends:
        # derivatives are orthonormal, bubbles vanish at the ends, together they span P_k
        dfs = [f.diff(0) for f in fs[1:]]
        for i, a in enumerate(dfs):
            for j, b in enumerate(dfs[: i + 1]):
                v = sp.integral(a * b)
                ctx.expect(
                    O.close(v, F1 if i == j else F0), "derivatives", f"orthonormal derivatives:{what}", f"{i + 1},{j + 1}: {v}",
                    key=f"{key}|{i}{j}",
                )  # fmt: skip
        ctx.expect(
            len(fs[0].c) == 1 and not O.is_zero(fs[0].c.get((0, 0, 0), F0)), "constant", f"constant:{what}", f"{got[0]}", key=f"{key}|one"
        )
        degs = [max(e[0] for e, v in f.c.items() if not O.is_zero(v)) for f in fs]
        ctx.expect(degs == list(range(k + 1)), "degree", f"degrees:{what}", f"{degs}", key=f"{key}|degrees")
        for i, f in enumerate(fs[2:]):
            for p in (F0, F1):
                ctx.expect(O.is_zero(f([p, F0, F0])), "ends", f"bubble ends:{what}", f"function {i + 2} at {p}", key=f"{key}|end{i}{p}")
    use = full if ends else full[2:]
    if d == 1:
        want = use
    else:
        want = []
        for e in product(range(len(use)), repeat=d):
            p = Poly.const(3, 1)
            for axis, i in enumerate(e):
                q = Poly(3, {tuple(a[0] if j == axis else 0 for j in range(3)): v for a, v in use[i].c.items()})
                p = p * q
            want.append(p)
    ctx.expect(
        len(want) == len(fs) and all(same_poly(a, b) for a, b in zip(fs, want)), "product", f"product:{what}", f"order {k} ends {ends}",
        key=f"{key}|product",
    )  # fmt: skip
    duals = [sp.read(f) for f in polynomials.lobatto_dual_basis(cell, k, ends)]
    ctx.expect(len(duals) == len(fs), "size", f"size:lobatto_dual_basis {cell}", f"{len(duals)}", key=f"{key}|dual size")
    for i, a in enumerate(duals):
        for j, b in enumerate(fs):
            v = sp.integral(a * b)
            ctx.expect(
                O.close(v, F1 if i == j else F0), "dual", f"duality:lobatto_dual_basis {cell}", f"order {k} ends {ends} {i},{j}: {v}",
                key=f"{key}|dual{i == j}",
            )  # fmt: skip
    if not ends:
        # the duals stay dual to the whole basis
        other = [sp.read(f) for f in polynomials.lobatto_dual_basis("interval", k)]
        line = Space("interval", VARS[0])
        for i, a in enumerate(other):
            for j, b in enumerate(full):
                v = line.integral(a * b)
                ctx.expect(
                    O.close(v, F1 if i == j else F0), "dual", "duality:lobatto_dual_basis interval", f"{i},{j}: {v}", key=f"{key}|all"
                )


def l2dual(ctx, cell, seed):
    """l2_dual of random independent polynomials."""
    from symfem import polynomials
    from symfem.functions import ScalarFunction

    r = random.Random(seed)
    t = O.TDIM[cell]
    sp = Space(cell, VARS[0])
    while True:
        ps = [O.rand_poly(r, t, 2) for _ in range(r.randint(1, 3))]
        full = [Poly(3, {tuple(e) + (0,) * (3 - t): v for e, v in p.c.items()}) for p in ps]
        if S.dim(full) == len(full):
            break
    fs = [ScalarFunction(O.poly_to_sympy(p)) for p in ps]
    got = polynomials.l2_dual(cell, fs)
    duals = [sp.read(f) for f in got]
    ctx.expect(len(duals) == len(fs), "size", f"size:l2_dual {cell}", f"{len(duals)}", key=f"l2_dual|{cell}|size")
    ctx.expect(S.same_span(duals, full), "span", f"span:l2_dual {cell}", f"{got}", key=f"l2_dual|{cell}|span")
    for i, a in enumerate(duals):
        for j, b in enumerate(full):
            v = sp.integral(a * b)
            ctx.expect(
                v == (1 if i == j else 0), "dual", f"duality:l2_dual {cell}", f"{i},{j}: {v}", key=f"l2_dual|{cell}|{i == j}|{len(fs)}"
            )
    again = [sp.read(f) for f in fs]
    ctx.expect(
        all(same_poly(a, b) for a, b in zip(again, full)), "unchanged", f"arguments changed:l2_dual {cell}", "", key=f"l2_dual|{cell}|args"
    )


def refusals(ctx, seed):
    from symfem import polynomials as P

    def refuse(what, f, errors):
        try:
            got = f()
        except errors:
            ctx.expect(True, "refused", "", "", key=f"refused|{what}")
        else:
            ctx.violate(f"not refused:{what}", f"gives {str(got)[:200]}")

    bad = (ValueError, NotImplementedError, AssertionError)
    refuse("orthogonal_basis cell", lambda: P.orthogonal_basis("dodecahedron", 1, 0), bad)
    refuse("orthonormal_basis cell", lambda: P.orthonormal_basis("dodecahedron", 1, 0), bad)
    refuse("polynomial_set cell", lambda: P.polysets.polynomial_set("dodecahedron", 1), bad)
    refuse("polynomial_set_1d dim", lambda: P.polynomial_set_1d(4, 1), bad)
    refuse("Hdiv_polynomials dims", lambda: P.Hdiv_polynomials(2, 3, 1), bad)
    refuse("Hcurl_polynomials dims", lambda: P.Hcurl_polynomials(3, 2, 1), bad)
    refuse("Hdiv_serendipity 1D", lambda: P.Hdiv_serendipity(1, 1, 1), bad)
    refuse("Hcurl_serendipity 1D", lambda: P.Hcurl_serendipity(1, 1, 1), bad)
    refuse("prism dim", lambda: P.prism_polynomial_set_1d(2, 1), bad)
    refuse("pyramid dim", lambda: P.pyramid_polynomial_set_1d(2, 1), bad)
    for cell in ("triangle", "tetrahedron", "prism", "pyramid"):
        refuse(f"lobatto {cell}", lambda: P.lobatto_basis(cell, 2), bad)
        refuse(f"lobatto dual {cell}", lambda: P.lobatto_dual_basis(cell, 2), bad)
