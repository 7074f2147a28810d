"""Random functions, each as a symfem object and as the oracle's description of it."""

from harness import fem
from harness import oracle as O


def rand_comps(r, t, kind, deg, shape=None):
    """Random polynomial function of t variables as nested oracle Polys (s, v, or m)."""
    if kind == "s":
        return O.rand_poly(r, t, deg, 4)
    if kind == "v":
        n = shape[0] if shape else t
        return [O.rand_poly(r, t, deg, 3) for _ in range(n)]
    n, m = shape if shape else (t, t)
    return [[O.rand_poly(r, t, deg, 2) for _ in range(m)] for _ in range(n)]


def to_sym(f):
    if isinstance(f, list):
        return tuple(to_sym(i) for i in f)
    return O.poly_to_sympy(f)


def pad3(f):
    """nested Poly -> nested Comp in three variables"""
    if isinstance(f, list):
        return [pad3(i) for i in f]
    return fem.Comp(pad(f))


def pad(p):
    return O.Poly(3, {tuple(list(k) + [0] * (3 - len(k))): v for k, v in p.c.items()})


def subdivision(r, cell, verts):
    """Pieces of a cell: simplices around an interior vertex (intervals and simplices), a fan of
    triangles or strips of quadrilaterals for quadrilaterals; None otherwise."""
    verts = [tuple(O.num(c) for c in v) for v in verts]
    if cell in ("interval", "triangle", "tetrahedron"):
        w = [O.Fraction(r.randint(1, 5)) for _ in verts]
        s = sum(w)
        c = [O.F0] * len(verts[0])
        for v, k in zip(verts, w):
            c = [a + k / s * O.num(b) for a, b in zip(c, v)]
        return [tuple(v for j, v in enumerate(verts) if j != i) + (tuple(c),) for i in range(len(verts))]
    if cell == "quadrilateral":
        a, b, c, d = verts
        k = r.randrange(3)
        if k == 0:
            return [(a, b, c), (b, c, d)]
        if k == 1:
            return [(a, b, d), (a, c, d)]
        s = O.Fraction(r.randint(1, 5), 6)
        p = tuple(x + s * (y - x) for x, y in zip(a, b))
        q = tuple(x + s * (y - x) for x, y in zip(c, d))
        return [(a, p, c, q), (p, b, q, d)]
    return None


class Fun:
    """A function: .sym is the symfem object (or raw input), .pieces the oracle's view."""

    def __init__(self, sym, pieces, form):
        self.sym, self.pieces, self.form = sym, pieces, form

    def values(self, p, t):
        return fem.values_at(self.pieces, p, t)


LAZY = {
    ("s", 1): ("interval", "P", 2), ("s", 2): ("triangle", "P", 2), ("s", 3): ("tetrahedron", "P", 2),
    ("v", 2): ("triangle", "N1curl", 2), ("v", 3): ("tetrahedron", "N1curl", 1),
    ("m", 2): ("triangle", "Regge", 1), ("m", 3): ("tetrahedron", "Regge", 0),
}  # fmt: skip
_els = {}


def lazy_element(kind, t):
    import symfem

    if (kind, t) not in _els:
        _els[kind, t] = symfem.create_element(*LAZY[kind, t])
    return _els[kind, t]


def rand_fun(r, t, kind, deg=2, form=None, cell=None, verts=None, shape=None):
    """A random function in one of the forms raw | plain | lazy | piecewise."""
    from symfem.functions import parse_function_input
    from symfem.piecewise_functions import PiecewiseFunction

    if form is None:
        form = r.choice(["raw", "plain", "plain", "lazy", "piecewise"])
    if form == "lazy" and (kind, t) in LAZY and shape is None:
        el = lazy_element(kind, t)
        b = el.get_basis_function(r.randrange(el.space_dim))
        return Fun(b, fem.read(b), "lazy")
    if form == "piecewise":
        cell = cell or {1: "interval", 2: "triangle", 3: "tetrahedron"}[t]
        sub = subdivision(r, cell, verts or O.VERTS[cell])
        if sub is not None:
            r.shuffle(sub)
            fs = [rand_comps(r, t, kind, deg, shape) for _ in sub]
            pw = PiecewiseFunction({tuple(O.spt(v) for v in s): to_sym(q) for s, q in zip(sub, fs)}, t)
            return Fun(pw, [(list(s), pad3(q)) for s, q in zip(sub, fs)], "piecewise")
    f = rand_comps(r, t, kind, deg, shape)
    s = to_sym(f)
    return Fun(
        s if form == "raw" else parse_function_input(s),
        [(None, pad3(f))],
        "raw" if form == "raw" else "plain",
    )
