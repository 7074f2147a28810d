"""The oracle's own arithmetic: exact numbers, polynomials, linear algebra and cells.

Nothing in here uses symfem.  Sympy is only read (expression trees are walked); all arithmetic is
done with Fractions, or with 50-digit mpmath numbers once an irrational number is met.
"""

from fractions import Fraction
from itertools import product
from math import comb, factorial, isqrt

import mpmath
import sympy

mpmath.mp.dps = 50
mpf = mpmath.mpf
F0, F1 = Fraction(0), Fraction(1)
TOL = mpf(10) ** -30  # for 50-digit arithmetic
FTOL = 1e-8  # once machine floats were involved


class NotPolynomial(Exception):
    pass


class Flt(Exception):
    pass


# -- numbers ---------------------------------------------------------------------------------
def num(v):
    """Any number (int, Fraction, mpf, float, sympy) -> Fraction or mpf."""
    if isinstance(v, (Fraction, mpmath.mpf)):
        return v
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        return mpf(v)
    v = sympy.sympify(v)
    return ev(v, {})


def add(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    return tomp(a) + tomp(b)


def mul(a, b):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return a * b
        if a == 0:
            return F0
    elif isinstance(b, Fraction) and b == 0:
        return F0
    return tomp(a) * tomp(b)


def tomp(a):
    if isinstance(a, Fraction):
        return mpf(a.numerator) / a.denominator
    return a if isinstance(a, mpmath.mpf) else mpf(a)


def div(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a / b
    return tomp(a) / tomp(b)


def frac_sqrt(a):
    if isinstance(a, Fraction) and a >= 0:
        n, d = isqrt(a.numerator), isqrt(a.denominator)
        if n * n == a.numerator and d * d == a.denominator:
            return Fraction(n, d)
    return mpmath.sqrt(tomp(a))


def power(b, e):
    if isinstance(e, Fraction) and e.denominator == 1:
        e = int(e)
        if isinstance(b, Fraction):
            if e < 0 and b == 0:
                raise ZeroDivisionError
            return b**e
        return b**e
    if isinstance(e, Fraction) and e.denominator == 2:
        return power(frac_sqrt(b), Fraction(e.numerator))
    return mpmath.power(tomp(b), tomp(e))


def close(a, b, tol=None):
    """Equality: exact between Fractions, to tol otherwise."""
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    a, b = tomp(a), tomp(b)
    if mpmath.isnan(a) or mpmath.isnan(b):
        return False
    return abs(a - b) <= (tol or TOL) * (1 + abs(a) + abs(b))


def is_zero(a, tol=None):
    return close(a, F0, tol)


class NotAValue(ValueError):
    """What symfem returned is not a number where it has to be one (infinite, complex, a symbol left over)."""


def ev(e, env):
    """Evaluate a sympy expression tree; env maps symbol name -> number."""
    if e.is_Symbol:
        if e.name not in env:
            raise NotAValue(f"the symbol {e.name} is left over")
        return env[e.name]
    if e.is_Rational:
        return Fraction(int(e.p), int(e.q))
    if e.is_Float:
        return mpf(e._mpf_) if False else mpmath.mpf(str(e)) if e._prec > 60 else mpf(float(e))
    if e.is_Add:
        r = F0
        for a in e.args:
            r = add(r, ev(a, env))
        return r
    if e.is_Mul:
        r = F1
        for a in e.args:
            r = mul(r, ev(a, env))
        return r
    if e.is_Pow:
        return power(ev(e.base, env), ev(e.exp, env))
    if isinstance(e, sympy.Abs):
        return abs(ev(e.args[0], env))
    if not e.free_symbols:
        v = sympy.N(e, 50)
        if v.is_Float or v.is_Rational:
            return mpmath.mpf(str(v))
        raise NotAValue(f"not a real number: {e}")
    if isinstance(e, sympy.log):
        return mpmath.log(tomp(ev(e.args[0], env)))
    if isinstance(e, sympy.exp):
        return mpmath.exp(tomp(ev(e.args[0], env)))
    if isinstance(e, (sympy.sin, sympy.cos)):
        return getattr(mpmath, type(e).__name__)(tomp(ev(e.args[0], env)))
    v = sympy.N(e.subs({s: sympy.sympify(str(env[s.name])) for s in e.free_symbols}), 50)
    return mpmath.mpf(str(v))


# -- polynomials: dict exponent tuple -> coefficient --------------------------------------------
class Poly:
    __slots__ = ("n", "c")

    def __init__(self, n, c=None):
        self.n = n
        self.c = {k: v for k, v in (c or {}).items() if v != 0}

    @staticmethod
    def const(n, v):
        return Poly(n, {(0,) * n: num(v)})

    @staticmethod
    def var(n, i):
        return Poly(n, {tuple(1 if j == i else 0 for j in range(n)): F1})

    @staticmethod
    def mono(e, c=F1):
        return Poly(len(e), {tuple(e): num(c)})

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(self.n, o)
        c = dict(self.c)
        for k, v in o.c.items():
            c[k] = add(c[k], v) if k in c else v
        return Poly(self.n, c)

    __radd__ = __add__

    def __neg__(self):
        return Poly(self.n, {k: -v for k, v in self.c.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            o = num(o)
            return Poly(self.n, {k: mul(v, o) for k, v in self.c.items()})
        c = {}
        for k, v in self.c.items():
            for k2, v2 in o.c.items():
                kk = tuple(map(int.__add__, k, k2))
                p = mul(v, v2)
                c[kk] = add(c[kk], p) if kk in c else p
        return Poly(self.n, c)

    __rmul__ = __mul__

    def __pow__(self, e):
        r = Poly.const(self.n, 1)
        for _ in range(e):
            r = r * self
        return r

    def __call__(self, pt):
        pt = [num(p) for p in pt]
        r = F0
        for k, v in self.c.items():
            m = v
            for p, e in zip(pt, k):
                if e:
                    m = mul(m, power(p, Fraction(e)))
            r = add(r, m)
        return r

    def diff(self, i):
        c = {}
        for k, v in self.c.items():
            if k[i]:
                kk = k[:i] + (k[i] - 1,) + k[i + 1 :]
                c[kk] = mul(v, Fraction(k[i]))
        return Poly(self.n, c)

    def compose(self, polys):
        """Substitute polynomials for the variables."""
        m = polys[0].n
        cache = [{0: Poly.const(m, 1)} for _ in polys]

        def pw(i, e):
            if e not in cache[i]:
                cache[i][e] = pw(i, e - 1) * polys[i]
            return cache[i][e]

        r = Poly(m)
        for k, v in self.c.items():
            t = Poly.const(m, v)
            for i, e in enumerate(k):
                if e:
                    t = t * pw(i, e)
            r = r + t
        return r

    def degree(self):
        return max((sum(k) for k in self.c), default=-1)

    def maxdegree(self):
        return max((max(k) if k else 0 for k in self.c), default=-1)

    def clean(self, tol=None):
        return Poly(self.n, {k: v for k, v in self.c.items() if not is_zero(v, tol)})

    def is_zero(self, tol=None):
        return all(is_zero(v, tol) for v in self.c.values())

    def same(self, o, tol=None):
        ks = set(self.c) | set(o.c)
        return all(close(self.c.get(k, F0), o.c.get(k, F0), tol) for k in ks)

    def __repr__(self):
        return " + ".join(f"{v}*{k}" for k, v in sorted(self.c.items())) or "0"


def to_poly(e, names=("x", "y", "z")):
    """A sympy expression as a Poly in the named variables (raises NotPolynomial)."""
    n = len(names)
    idx = {a: i for i, a in enumerate(names)}

    def rec(e):
        if e.is_Symbol:
            if e.name not in idx:
                raise NotPolynomial(f"free symbol {e.name}")
            return Poly.var(n, idx[e.name])
        if not e.free_symbols:
            return Poly.const(n, ev(e, {}))
        if e.is_Add:
            r = Poly(n)
            for a in e.args:
                r = r + rec(a)
            return r
        if e.is_Mul:
            r = Poly.const(n, 1)
            for a in e.args:
                r = r * rec(a)
            return r
        if e.is_Pow and e.exp.is_Integer and int(e.exp) >= 0:
            b = rec(e.base)
            return b ** int(e.exp)
        raise NotPolynomial(str(e)[:200])

    return rec(sympy.sympify(e))


# -- exact integrals of monomials ----------------------------------------------------------------
def integrate_ref(p, cell):
    """Integral of a Poly over the reference interval/triangle/... with n = tdim variables."""
    r = F0
    for k, v in p.c.items():
        r = add(r, mul(v, mono_integral(k, cell)))
    return r


_mi = {}


def mono_integral(k, cell):
    key = (k, cell)
    if key in _mi:
        return _mi[key]
    if cell == "point":
        v = F1
    elif cell in ("interval", "quadrilateral", "hexahedron"):
        v = F1
        for e in k:
            v /= e + 1
    elif cell in ("triangle", "tetrahedron"):
        nn = 1
        for e in k:
            nn *= factorial(e)
        v = Fraction(nn, factorial(sum(k) + len(k)))
    elif cell == "prism":
        v = mono_integral(k[:2], "triangle") / (k[2] + 1)
    elif cell == "pyramid":
        # x in [0,1-z], y in [0,1-z], z in [0,1]
        a, b, c = k
        # int (1-z)^(a+b+2) z^c dz / ((a+1)(b+1))
        m = a + b + 2
        v = Fraction(factorial(m) * factorial(c), factorial(m + c + 1)) / ((a + 1) * (b + 1))
    else:
        raise ValueError(cell)
    _mi[key] = v
    return v


# -- linear algebra ---------------------------------------------------------------------------------
def rref_rank(rows, tol=None):
    """Rank of a matrix given as list of lists of numbers."""
    rows = [list(r) for r in rows]
    if not rows:
        return 0
    exact = all(isinstance(v, Fraction) for r in rows for v in r)
    ncols = len(rows[0])
    if not exact:
        rows = [[tomp(v) for v in r] for r in rows]
        for r in rows:
            m = max((abs(v) for v in r), default=0)
            if m > 0:
                for j in range(ncols):
                    r[j] /= m
    rank = 0
    t = tol or mpf(10) ** -20
    for c in range(ncols):
        piv = None
        if exact:
            for i in range(rank, len(rows)):
                if rows[i][c] != 0:
                    piv = i
                    break
        else:
            best = t
            for i in range(rank, len(rows)):
                if abs(rows[i][c]) > best:
                    best, piv = abs(rows[i][c]), i
        if piv is None:
            continue
        rows[rank], rows[piv] = rows[piv], rows[rank]
        pr = rows[rank]
        pv = pr[c]
        for i in range(rank + 1, len(rows)):
            f = rows[i][c]
            if f != 0:
                f = f / pv
                ri = rows[i]
                for j in range(c, ncols):
                    if pr[j] != 0:
                        ri[j] = ri[j] - f * pr[j]
        rank += 1
        if rank == len(rows):
            break
    return rank


def solve(A, b):
    """Solve a square exact system."""
    n = len(A)
    M = [list(map(num, r)) + [num(v)] for r, v in zip(A, b)]
    for c in range(n):
        p = next((i for i in range(c, n) if M[i][c] != 0), None)
        if p is None:
            raise ZeroDivisionError("singular")
        M[c], M[p] = M[p], M[c]
        inv = div(F1, M[c][c])
        M[c] = [mul(v, inv) for v in M[c]]
        for i in range(n):
            if i != c and M[i][c] != 0:
                f = M[i][c]
                M[i] = [add(v, mul(-f, w)) for v, w in zip(M[i], M[c])]
    return [r[n] for r in M]


def matinv(A):
    n = len(A)
    cols = [solve(A, [F1 if i == j else F0 for i in range(n)]) for j in range(n)]
    return [[cols[j][i] for j in range(n)] for i in range(n)]


def det(A):
    n = len(A)
    if n == 0:
        return F1
    if n == 1:
        return num(A[0][0])
    r = F0
    for j in range(n):
        minor = [row[:j] + row[j + 1 :] for row in [list(q) for q in A[1:]]]
        t = mul(num(A[0][j]), det(minor))
        r = add(r, t if j % 2 == 0 else -t)
    return r


def matmul(A, B):
    return [[dotp(r, c) for c in zip(*B)] for r in A]


def matvec(A, v):
    return [dotp(r, v) for r in A]


def transpose(A):
    return [list(r) for r in zip(*A)]


def dotp(a, b):
    r = F0
    for i, j in zip(a, b):
        r = add(r, mul(num(i), num(j)))
    return r


def cross(a, b):
    a, b = [num(i) for i in a], [num(i) for i in b]
    return [
        add(mul(a[1], b[2]), -mul(a[2], b[1])),
        add(mul(a[2], b[0]), -mul(a[0], b[2])),
        add(mul(a[0], b[1]), -mul(a[1], b[0])),
    ]


def vsub(a, b):
    return [add(num(i), -num(j)) for i, j in zip(a, b)]


def vadd(a, b):
    return [add(num(i), num(j)) for i, j in zip(a, b)]


def norm(a):
    return frac_sqrt(dotp(a, a))


# -- cells (the oracle's own tables) ---------------------------------------------------------------
TDIM = {
    "point": 0,
    "interval": 1,
    "triangle": 2,
    "quadrilateral": 2,
    "tetrahedron": 3,
    "hexahedron": 3,
    "prism": 3,
    "pyramid": 3,
}
VERTS = {
    "point": [()],
    "interval": [(0,), (1,)],
    "triangle": [(0, 0), (1, 0), (0, 1)],
    "quadrilateral": [(0, 0), (1, 0), (0, 1), (1, 1)],
    "tetrahedron": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "hexahedron": [
        (0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1),
    ],
    "prism": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
    "pyramid": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1)],
}  # fmt: skip
EDGES = {
    "point": [],
    "interval": [(0, 1)],
    "triangle": [(1, 2), (0, 2), (0, 1)],
    "quadrilateral": [(0, 1), (0, 2), (1, 3), (2, 3)],
    "tetrahedron": [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)],
    "hexahedron": [
        (0, 1), (0, 2), (0, 4), (1, 3), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 6), (5, 7),
        (6, 7),
    ],
    "prism": [(0, 1), (0, 2), (0, 3), (1, 2), (1, 4), (2, 5), (3, 4), (3, 5), (4, 5)],
    "pyramid": [(0, 1), (0, 2), (0, 4), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)],
}  # fmt: skip
FACES = {
    "point": [],
    "interval": [],
    "triangle": [(0, 1, 2)],
    "quadrilateral": [(0, 1, 2, 3)],
    "tetrahedron": [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)],
    "hexahedron": [
        (0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7),
    ],
    "prism": [(0, 1, 2), (0, 1, 3, 4), (0, 2, 3, 5), (1, 2, 4, 5), (3, 4, 5)],
    "pyramid": [(0, 1, 2, 3), (0, 1, 4), (0, 2, 4), (1, 3, 4), (2, 3, 4)],
}  # fmt: skip
VOLUME = {
    "point": F1, "interval": F1, "triangle": Fraction(1, 2), "quadrilateral": F1,
    "tetrahedron": Fraction(1, 6), "hexahedron": F1, "prism": Fraction(1, 2),
    "pyramid": Fraction(1, 3),
}  # fmt: skip


def sub_entities(cell, dim):
    if dim == 0:
        return [(i,) for i in range(len(VERTS[cell]))]
    t = TDIM[cell]
    if dim == t:
        return [tuple(range(len(VERTS[cell])))]
    return EDGES[cell] if dim == 1 else FACES[cell]


def entity_type(dim, nverts):
    return {
        (0, 1): "point", (1, 2): "interval", (2, 3): "triangle", (2, 4): "quadrilateral",
        (3, 4): "tetrahedron", (3, 8): "hexahedron", (3, 6): "prism", (3, 5): "pyramid",
    }[(dim, nverts)]  # fmt: skip


def axis_vertices(cell):
    """Numbers of the vertices that (with vertex 0) span the affine frame of the cell."""
    return {
        "point": [], "interval": [1], "triangle": [1, 2], "quadrilateral": [1, 2],
        "tetrahedron": [1, 2, 3], "hexahedron": [1, 2, 4], "prism": [1, 2, 3],
        "pyramid": [1, 2, 4],
    }[cell]  # fmt: skip


def frame(cell, verts):
    """(origin, axes) of an affine cell with these vertices."""
    o = [num(v) for v in verts[0]]
    return o, [vsub(verts[i], verts[0]) for i in axis_vertices(cell)]


def affine_vertices(cell, A, b):
    """The vertices of the image of the reference cell under x -> A x + b."""
    return [tuple(vadd(matvec(A, v), b)) for v in VERTS[cell]]


def affine_point(o, axes, p):
    r = list(o)
    for a, t in zip(axes, p):
        r = [add(i, mul(num(t), j)) for i, j in zip(r, a)]
    return r


def affine_polys(o, axes, m):
    """The parametrisation of an affine cell as polynomials in its m local coordinates."""
    out = []
    for i in range(len(o)):
        p = Poly.const(m, o[i])
        for j, a in enumerate(axes):
            p = p + Poly.var(m, j) * a[i]
        out.append(p)
    return out


def gram_measure(axes):
    """sqrt(det(A^T A)): the local volume factor of the frame."""
    if not axes:
        return F1
    if len(axes) == len(axes[0]):
        return abs(det(axes))
    G = [[dotp(a, b) for b in axes] for a in axes]
    return frac_sqrt(det(G))


def integrate_cell(p, cell, verts):
    """Integral of Poly p (ambient variables) over an affine cell, possibly embedded."""
    o, axes = frame(cell, verts)
    q = p.compose(affine_polys(o, axes, len(axes)))
    return mul(integrate_ref(q, cell), gram_measure(axes))


def inverse_affine(o, axes):
    """Matrix and offset of the inverse of t -> o + sum t_i axes_i (square case)."""
    A = transpose(axes)
    Ai = matinv(A)
    return Ai, [-v for v in matvec(Ai, o)]


def bary_inside(cell, p, strict=False):
    """Is the local point p in the reference cell (closed, or open if strict)?"""
    p = [num(i) for i in p]
    lo = (lambda v: v > 0) if strict else (lambda v: v >= 0)
    if cell == "point":
        return True
    if cell in ("interval", "quadrilateral", "hexahedron"):
        return all(lo(i) and lo(1 - i) for i in p)
    if cell in ("triangle", "tetrahedron"):
        return all(lo(i) for i in p) and lo(1 - sum(p))
    if cell == "prism":
        return bary_inside("triangle", p[:2], strict) and lo(p[2]) and lo(1 - p[2])
    if cell == "pyramid":
        return all(lo(i) for i in p) and lo(1 - p[2] - p[0]) and lo(1 - p[2] - p[1])
    raise ValueError(cell)


# -- random rational data -----------------------------------------------------------------------
def rand_frac(rng, lo=-3, hi=3, den=(1, 2, 3, 4, 5)):
    d = rng.choice(den)
    return Fraction(rng.randint(lo * d, hi * d), d)


def rand_matrix(rng, n, sign=None):
    while True:
        A = [[rand_frac(rng, -2, 2, (1, 2, 3)) for _ in range(n)] for _ in range(n)]
        d = det(A)
        if d != 0 and abs(d) >= Fraction(1, 4) and (sign is None or (d > 0) == (sign > 0)):
            return A


def rand_affine_cell(rng, cell, sign=None):
    n = TDIM[cell]
    A = rand_matrix(rng, n, sign)
    b = [rand_frac(rng) for _ in range(n)]
    return A, b, affine_vertices(cell, A, b)


def rand_point_in(rng, cell, den=12):
    n = TDIM[cell]
    while True:
        p = [Fraction(rng.randint(1, den - 1), den) for _ in range(n)]
        if bary_inside(cell, p, strict=True):
            return p


def rand_poly(rng, n, deg, terms=4, total=True):
    p = Poly(n)
    for _ in range(terms):
        while True:
            e = tuple(rng.randint(0, deg) for _ in range(n))
            if not total or sum(e) <= deg:
                break
        p = p + Poly.mono(e, rand_frac(rng) or F1)
    return p


def monos_total(n, k):
    """All exponent tuples of total degree <= k."""
    return [e for e in product(range(k + 1), repeat=n) if sum(e) <= k]


def monos_max(n, k):
    return list(product(range(k + 1), repeat=n))


def sp(v):
    """Number -> sympy."""
    if isinstance(v, Fraction):
        return sympy.Rational(v.numerator, v.denominator)
    if isinstance(v, int):
        return sympy.Integer(v)
    return sympy.Float(str(v), 50)


def spt(pt):
    return tuple(sp(v) for v in pt)


def poly_to_sympy(p, names=("x", "y", "z")):
    s = sympy.symbols(names[: p.n])
    return sympy.Add(*[sp(v) * sympy.Mul(*[a**e for a, e in zip(s, k)]) for k, v in p.c.items()])


def binom(n, k):
    return comb(n, k)
