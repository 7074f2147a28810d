"""Named polynomial spaces of the literature, built from their definitions (no symfem).

A function is a Poly in 3 variables (scalar) or a nested list of them.  A space is a list of
functions spanning it (not necessarily independent).
"""

from fractions import Fraction
from itertools import product

from harness import oracle as O
from harness.oracle import F0, F1, Poly

N = 3
Z = Poly(N)
X = [Poly.var(N, i) for i in range(N)]
ONE = Poly.const(N, 1)


def pad(e):
    return tuple(e) + (0,) * (N - len(e))


def m(e):
    return Poly.mono(pad(e))


def P(t, k):
    return [m(e) for e in product(range(max(k, -1) + 1), repeat=t) if sum(e) <= k]


def Ph(t, k):
    """Homogeneous of degree k."""
    return [m(e) for e in product(range(max(k, -1) + 1), repeat=t) if sum(e) == k]


def Qd(degs):
    """Tensor product space of these degrees."""
    return [m(e) for e in product(*[range(d + 1) for d in degs])]


def Q(t, k):
    return Qd([k] * t)


def W(k):
    """Prism: P_k(x, y) P_k(z)."""
    return [m(e) * X[2] ** c for e in product(range(k + 1), repeat=2) if sum(e) <= k for c in range(k + 1)]


def lag(cell, k):
    if k < 0:
        return []
    if cell in ("interval", "triangle", "tetrahedron"):
        return P(O.TDIM[cell], k)
    if cell in ("quadrilateral", "hexahedron"):
        return Q(O.TDIM[cell], k)
    if cell == "prism":
        return W(k)
    raise KeyError(cell)


def vec(space, n):
    return [[f if j == i else Z for j in range(n)] for i in range(n) for f in space]


def mat(space, n):
    return [[[f if (a, b) == (i, j) else Z for b in range(n)] for a in range(n)] for i in range(n) for j in range(n) for f in space]


def symmat(space, n):
    return [sym1(i, j, f, n) for i in range(n) for j in range(i, n) for f in space]


def sym1(i, j, f, n):
    return [[f if (a, b) in ((i, j), (j, i)) else Z for b in range(n)] for a in range(n)]


def comps(spaces):
    """Vector space with component i in spaces[i]."""
    n = len(spaces)
    return [[f if j == i else Z for j in range(n)] for i in range(n) for f in spaces[i]]


def vadd(a, b):
    return [p + q for p, q in zip(a, b)]


def grad(f, t):
    return [f.diff(i) for i in range(t)]


def curl2(f):
    """Vector curl of a scalar in 2D."""
    return [f.diff(1), -f.diff(0)]


def curl3(v):
    return [v[2].diff(1) - v[1].diff(2), v[0].diff(2) - v[2].diff(0), v[1].diff(0) - v[0].diff(1)]


def div(v):
    r = Z
    for i, f in enumerate(v):
        r = r + f.diff(i)
    return r


def rot(v):
    return v[1].diff(0) - v[0].diff(1)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def RT(t, k):
    return vec(P(t, k - 1), t) + [[X[i] * f for i in range(t)] for f in Ph(t, k - 1)]


def N1(t, k):
    if t == 2:
        return vec(P(2, k - 1), 2) + [[X[1] * f, -(X[0] * f)] for f in Ph(2, k - 1)]
    return vec(P(3, k - 1), 3) + [cross(X, v) for v in vec(Ph(3, k - 1), 3)]


def superlinear(e):
    return sum(i for i in e if i > 1)


def ldeg(e):
    """Number of variables entering linearly."""
    return sum(1 for i in e if i == 1)


def serendipity(t, k):
    return [m(e) for e in product(range(k + 1), repeat=t) if superlinear(e) <= k]


def J_hdiv(r):
    """3D: d J_{r+1} Lambda^1 (Arnold-Awanou): curls of kappa of 2-forms, linear degree >= 1."""
    out = []
    for i in range(3):
        a, b = [j for j in range(3) if j != i]
        # kappa of a 1-form-like: x_i * (monomial of degree r in the two others) * (x_a e_b - x_b e_a)
        for e in product(range(r + 1), repeat=2):
            if sum(e) == r:
                p = X[i] * X[a] ** e[0] * X[b] ** e[1]
                v = [Z, Z, Z]
                v[b], v[a] = X[a] * p, -(X[b] * p)
                out.append(v)
    return out


def Sdiv(t, k):
    if t == 2:
        return vec(P(2, k), 2) + [curl2(m((k + 1, 1))), curl2(m((1, k + 1)))]
    return vec(P(3, k), 3) + [curl3(v) for v in J_hdiv(k)]


def Scurl(t, k):
    if t == 2:
        return vec(P(2, k), 2) + [grad(m((k + 1, 1)), 2), grad(m((1, k + 1)), 2)]
    return vec(P(3, k), 3) + J_hdiv(k - 1) + [grad(f, 3) for f in serendipity(3, k + 1)]


def TSdiv(t, k):
    """Trimmed serendipity S_k^- Lambda^{n-1} (Gillette and Kloefkorn)."""
    if t == 2:
        return RT(2, k) + [curl2(f) for f in serendipity(2, k)]
    return RT(3, k) + [curl3(v) for v in J_hdiv(k - 1)]


def TScurl(t, k):
    if t == 2:
        return N1(2, k) + [grad(f, 2) for f in serendipity(2, k)]
    return N1(3, k) + J_hdiv(k - 1) + [grad(f, 3) for f in serendipity(3, k)]


def BDFM(cell, k):
    t = O.TDIM[cell]
    if cell in ("triangle", "tetrahedron"):
        space = vec(P(t, k), t)
        return constrained(space, lambda v: normal_traces_degree(cell, v, k - 1))
    out = []
    for i in range(t):
        for f in P(t, k):
            (e,) = f.c
            if sum(e) == k and e[i] == 0:
                continue
            out.append([f if j == i else Z for j in range(t)])
    return out


def facet_normal(cell, facet, verts=None):
    V = [(verts or O.VERTS[cell])[i] for i in facet]
    if len(V[0]) == 2:
        d = O.vsub(V[1], V[0])
        return [-d[1], d[0]]
    return O.cross(O.vsub(V[1], V[0]), O.vsub(V[2], V[0]))


def facets(cell):
    return O.sub_entities(cell, O.TDIM[cell] - 1)


def restrict(f, cell, ent, dim, verts=None):
    V = [(verts or O.VERTS[cell])[i] for i in ent]
    o, axes = O.frame(O.entity_type(dim, len(V)), V)
    ps = O.affine_polys(o, axes, dim)
    k = len(ps)
    return f.compose(list(ps) + [Poly(dim)] * (N - k))


def normal_traces_degree(cell, v, d):
    """Coefficients of v.n of degree > d on every facet (must vanish)."""
    t = O.TDIM[cell]
    out = {}
    for i, fc in enumerate(facets(cell)):
        n = facet_normal(cell, fc)
        f = Z
        for a, b in zip(v, n):
            f = f + a * b
        for e, c in restrict(f, cell, fc, t - 1).c.items():
            if sum(e) > d:
                out[(i, e)] = c
    return out


def nullspace(rows, ncols):
    """Null space of an exact matrix (rows of Fractions)."""
    M = [list(r) for r in rows]
    piv = []
    r = 0
    for c in range(ncols):
        p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        iv = 1 / M[r][c]
        M[r] = [v * iv for v in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        piv.append(c)
        r += 1
    out = []
    for c in range(ncols):
        if c in piv:
            continue
        v = [F0] * ncols
        v[c] = F1
        for i, pc in enumerate(piv):
            v[pc] = -M[i][c]
        out.append(v)
    return out


def lincomb(funs, cs):
    def rec(parts):
        if isinstance(parts[0], list):
            return [rec([p[i] for p in parts]) for i in range(len(parts[0]))]
        r = Z
        for p, c in zip(parts, cs):
            if c:
                r = r + p * c
        return r

    return rec(funs)


def constrained(space, constraints):
    """Subspace on which constraints(f) (dict key -> value, linear in f) all vanish."""
    cols = [constraints(f) for f in space]
    keys = sorted({k for c in cols for k in c}, key=repr)
    rows = [[c.get(k, F0) for c in cols] for k in keys]
    return [lincomb(space, v) for v in nullspace(rows, len(space))]


def bubble(cell):
    x, y, z = X
    return {
        "interval": x * (1 - x),
        "triangle": x * y * (1 - x - y),
        "tetrahedron": x * y * z * (1 - x - y - z),
        "quadrilateral": x * (1 - x) * y * (1 - y),
        "hexahedron": x * (1 - x) * y * (1 - y) * z * (1 - z),
    }[cell]


def bary(cell):
    t = O.TDIM[cell]
    lam = ONE
    for i in range(t):
        lam = lam - X[i]
    return [lam] + X[:t]


# -- the table: family -> space ------------------------------------------------------------------
def named(cell, name, order, kw):
    """Spanning set of the space the name denotes; KeyError if the table has no entry."""
    t = O.TDIM.get(cell)
    k = order
    simplex = cell in ("interval", "triangle", "tetrahedron")
    if name in ("P", "Lagrange", "Bernstein", "Taylor") and simplex:
        return P(t, k)
    if name == "Lagrange" and cell == "prism":
        return W(k)
    if name == "dPc":
        return P(t, k)
    if name in ("vP", "vector dPc"):
        return vec(P(t, k), t) if t > 1 else P(t, k)
    if name == "matrix Lagrange":
        return mat(P(t, k), t)
    if name == "symmetric matrix Lagrange":
        return symmat(P(t, k), t)
    if name == "Q":
        return Q(t, k)
    if name == "vQ":
        return vec(Q(t, k), t)
    if name == "RT":
        return RT(t, k)
    if name == "Nedelec1":
        return N1(t, k)
    if name == "Nedelec" and cell == "prism":
        tri = N1(2, k)
        out = [[a, b, Z] for a, b in tri]
        out = [[a * X[2] ** c, b * X[2] ** c, Z] for a, b, _ in out for c in range(k + 1)]
        out += [[Z, Z, f * X[2] ** c] for f in P(2, k) for c in range(k)]
        return out
    if name in ("BDM", "Nedelec2"):
        return vec(P(t, k), t)
    if name == "Qdiv":
        return comps([Qd([k if j == i else k - 1 for j in range(t)]) for i in range(t)])
    if name == "Qcurl":
        return comps([Qd([k - 1 if j == i else k for j in range(t)]) for i in range(t)])
    if name == "serendipity":
        return serendipity(t, k)
    if name == "Sdiv":
        return Sdiv(t, k)
    if name == "Scurl":
        return Scurl(t, k)
    if name == "TSdiv":
        return TSdiv(t, k)
    if name == "TScurl":
        return TScurl(t, k)
    if name == "AC":
        return TSdiv(2, k + 1)
    if name == "ABF":
        return comps([Qd([k + 2, k]), Qd([k, k + 2])])
    if name == "BDFM":
        return BDFM(cell, k)
    if name == "HHJ":
        return symmat(P(t, k), t)
    if name == "Regge":
        if simplex:
            return symmat(P(t, k), t)
        out = []
        for i in range(t):
            for j in range(i, t):
                d = [k if a in (i, j) else k + 1 for a in range(t)]
                out += [sym1(i, j, f, t) for f in Qd(d)]
        return out
    if name == "CR":
        if cell == "tetrahedron":
            return P(3, 1) if k == 1 else {}[0]
        return {1: P(2, 1), 3: P(2, 3)}[k]
    if name == "conforming CR":
        return P(2, k) + [bubble(cell) * f for f in P(2, k - 2)]
    if name == "Rannacher-Turek":
        if t == 2:
            return P(2, 1) + [X[0] ** 2 - X[1] ** 2]
        return P(3, 1) + [X[0] ** 2 - X[1] ** 2, X[1] ** 2 - X[2] ** 2]
    if name == "bubble":
        d = {"interval": 2, "triangle": 3, "tetrahedron": 4}.get(cell)
        if d:
            return [bubble(cell) * f for f in P(t, k - d)]
        return [bubble(cell) * f for f in Q(t, k - 2)]
    if name == "bubble enriched Lagrange":
        return P(2, k) + [bubble(cell) * f for f in P(2, k - 1)]
    if name == "bubble enriched vector Lagrange":
        return vec(P(2, k) + [bubble(cell) * f for f in P(2, k - 1)], 2)
    if name == "Hermite":
        return P(t, 3)
    if name in ("Morley", "FS"):
        return P(2, 2)
    if name == "MWX":
        return P(t, k)
    if name == "Wu-Xu":
        return P(t, t + 1) + [bubble(cell) * f for f in P(t, 1)]
    if name == "Argyris":
        return P(2, 5)
    if name == "Bell":
        return constrained(P(2, 5), lambda f: _bell(cell, f))
    if name == "BFS":
        return Q(2, 3)
    if name == "AW":
        return constrained(
            symmat(P(2, k), 2),
            lambda M: {(i, e): c for i, r in enumerate(M) for e, c in div(r).c.items() if sum(e) > k - 2},
        )
    if name == "nonconforming AW":

        def nn(M):
            out = {}
            for i, fc in enumerate(facets(cell)):
                n = facet_normal(cell, fc)
                f = Z
                for a in range(2):
                    for b in range(2):
                        f = f + M[a][b] * (n[a] * n[b])
                for e, c in restrict(f, cell, fc, 1).c.items():
                    if sum(e) > 1:
                        out[(i, e)] = c
            return out

        return constrained(symmat(P(2, 2), 2), nn)
    if name == "MTW":
        if t == 2:

            def cons(v):
                out = normal_traces_degree(cell, v, 1)
                out.update({("d", e): c for e, c in div(v).c.items() if sum(e) > 0})
                return out

            return constrained(vec(P(2, 3), 2), cons)
        b = bubble(cell)
        return vec(P(3, 1), 3) + [curl3([b * f for f in v]) for v in vec(P(3, 1), 3)]
    if name == "Bernardi-Raugel":
        if k != 1:
            raise KeyError
        lam = bary(cell)
        out = vec(P(t, 1), t)
        for fc in facets(cell):
            b = ONE
            for i in fc:
                b = b * lam[i]
            out.append([b * c for c in facet_normal(cell, fc)])
        return out
    if name == "KMV" and cell == "triangle":
        if k == 1:
            return P(2, 1)
        if k == 2:
            return P(2, 2) + [bubble(cell)]
        if k == 3:
            return P(2, 3) + [bubble(cell) * f for f in P(2, 1)]
        raise KeyError
    if name == "KMV" and k == 1:
        return P(t, 1)
    if name == "KMV" and k == 2:
        lam = bary(cell)
        out = P(3, 2) + [bubble(cell)]
        for fc in facets(cell):
            b = lam[fc[0]] * lam[fc[1]] * lam[fc[2]]
            out += [b * lam[i] for i in fc]
        return out
    raise KeyError(name)


def _bell(cell, f, verts=None):
    """Normal derivatives of degree > 3 on the edges."""
    out = {}
    for i, fc in enumerate(facets(cell)):
        n = facet_normal(cell, fc, verts)
        g = f.diff(0) * n[0] + f.diff(1) * n[1]
        for e, c in restrict(g, cell, fc, 1, verts).c.items():
            if sum(e) > 3:
                out[(i, e)] = c
    return out


def pyramid_values(k, pts):
    """Rows of values of the pyramid Lagrange space at rational points (Nigam-Phillips/Fuentes).

    P_k plus sum over m < k of (xy/(1-z))^(k-m) P_m(x, y).
    """
    rows = []
    for e in product(range(k + 1), repeat=3):
        if sum(e) <= k:
            rows.append([p[0] ** e[0] * p[1] ** e[1] * p[2] ** e[2] for p in pts])
    for mm in range(k):
        for e in product(range(mm + 1), repeat=2):
            if sum(e) <= mm:
                rows.append([(p[0] * p[1] / (1 - p[2])) ** (k - mm) * p[0] ** e[0] * p[1] ** e[1] for p in pts])
    return rows


# -- comparing spans ------------------------------------------------------------------------------
def flatten(f):
    if isinstance(f, list):
        return [g for i in f for g in flatten(i)]
    return [f]


def rows_of(*spaces):
    """Coefficient rows of several lists of functions in one common set of columns."""
    cols = {}
    data = []
    for sp in spaces:
        block = []
        for f in sp:
            r = {}
            for i, p in enumerate(flatten(f)):
                for e, c in p.c.items():
                    k = (i, e)
                    cols.setdefault(k, len(cols))
                    r[cols[k]] = c
            block.append(r)
        data.append(block)
    n = len(cols)
    return [[[r.get(j, F0) for j in range(n)] for r in b] for b in data]


def reduce_mod(rows, p=(1 << 61) - 1):
    """Rank over GF(p) of exact rows (fast; can only underestimate, with probability ~ 2^-55)."""
    M = []
    for r in rows:
        M.append([v.numerator % p * pow(v.denominator, -1, p) % p if v else 0 for v in r])
    rank = 0
    if not M:
        return 0
    for c in range(len(M[0])):
        piv = next((i for i in range(rank, len(M)) if M[i][c]), None)
        if piv is None:
            continue
        M[rank], M[piv] = M[piv], M[rank]
        inv = pow(M[rank][c], -1, p)
        pr = M[rank]
        for i in range(rank + 1, len(M)):
            f = M[i][c]
            if f:
                f = f * inv % p
                row = M[i]
                for j in range(c, len(pr)):
                    if pr[j]:
                        row[j] = (row[j] - f * pr[j]) % p
        rank += 1
        if rank == len(M):
            break
    return rank


def rank(rows):
    if not rows or not rows[0]:
        return 0
    if all(isinstance(v, Fraction) for r in rows for v in r):
        return reduce_mod(rows)
    return O.rref_rank(rows)


def contains(big, small):
    """Is span(small) inside span(big)?"""
    if not small:
        return True
    a, b = rows_of(big, small)
    return rank(a) == rank(a + b)


def same_span(a, b):
    ra, rb = rows_of(a, b)
    x, y = rank(ra), rank(rb)
    return x == y == rank(ra + rb)


def dim(a):
    (r,) = rows_of(a)
    return rank(r)
