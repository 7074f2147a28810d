"""P08: point location, incidence predicates, plotting orders and lattices."""

import random
from fractions import Fraction

from harness import oracle as O
from harness.core import Case

PROPERTY = "P08"
TECHNIQUE = "runtime monitor: point-location and incidence queries compared with exact rational geometry"
RULE = (
    "One case = one predicate on random cells (reference, rational affine images of both orientations, "
    "general convex quadrilaterals, embedded cells) asked about points that are interior, on vertices, edges, "
    "faces, their extensions outside the cell, 1e-9 beside them and far away, written as rationals, integers, "
    "floats or irrationals; the answer must be the oracle's (exact rational arithmetic) or a NotImplementedError. "
    "Lattices, sub-entities and plotting orders are checked for completeness. Distinct = predicate x cell x kind of point."
)
ASSUMPTIONS = [
    "a floating-point coordinate within 1e-6 of the boundary is judged only when it rounds a point of the boundary and the "
    "function documents no exactness (point_in_* are tolerant by design), never for `contains`, which has no tolerance",
]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 400}
FLOOR = 4000

CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]
NUMBERS = [0, 0, 1, 1, -1, 2, Fraction(1, 2), Fraction(1, 3), Fraction(2, 3), Fraction(1, 4), Fraction(3, 4)]


def cases(tier, seed):
    rng = random.Random(f"p08/{seed}")
    n = 40 if tier == "quick" else 1500
    out = []

    def add(name, fn, *args, cost=1):
        for k in range(n):
            out.append(Case(f"{name}/{k}", fn, [*args, rng.randint(0, 10**9)], cost))

    for c in CELLS:
        add(f"contains/{c}", "contains", c, False, cost=2)
        add(f"contains affine/{c}", "contains", c, True, cost=3)
        add(f"edge and face/{c}", "onedge", c, cost=4)
        out.append(Case(f"lattice/{c}", "lattice", [c, 6 if tier == "quick" else 10, rng.randint(0, 10**9)], 3))
        out.append(Case(f"plot order/{c}", "zorder", [c]))
    add("point", "point")
    for g in (2, 3):
        add(f"embedded/{g}", "embedded", g)
    for c in ("interval", "triangle", "quadrilateral", "tetrahedron"):
        add(f"point_in/{c}", "point_in", c, cost=3)
    add("point_in triangle 3D", "triangle3d", cost=3)
    for g in (2, 3):
        add(f"intersection/{g}", "intersection", g, cost=6)
    for k in range(3, 9):
        out.append(Case(f"dual polygon/{k}", "dual", [k]))
    return out


def query_points(r, cell):
    """Local points with a label of their kind."""
    t = O.TDIM[cell]
    V = [list(v) for v in O.VERTS[cell]]
    out = [("interior", O.rand_point_in(r, cell, 30)) for _ in range(2)]
    out.append(("vertex", list(r.choice(V))))
    for d in range(1, t + 1):
        for e in O.sub_entities(cell, d):
            vs = [V[i] for i in e]
            w = [Fraction(r.randint(1, 6)) for _ in vs]
            p = [sum(a * v[i] for a, v in zip(w, vs)) / sum(w) for i in range(t)]
            out.append((f"in entity {d}", p))
            if d < t:
                # beside it, by a tiny amount, in a random direction
                q = [c + Fraction(r.choice([-1, 0, 1]), 10**9) for c in p]
                out.append((f"1e-9 beside entity {d}", q))
            # on the extension of the entity, outside its own convex hull or not
            w2 = [Fraction(r.randint(-3, 4)) for _ in vs]
            w2[0] += 1 - sum(w2)
            out.append((f"extension of entity {d}", [sum(a * v[i] for a, v in zip(w2, vs)) for i in range(t)]))
    for _ in range(6):
        out.append(("grid", [Fraction(r.choice(NUMBERS)) for _ in range(t)]))
    for _ in range(3):
        out.append(("box", [O.rand_frac(r, -1, 2) for _ in range(t)]))
    out.append(("far", [O.rand_frac(r, -40, 40) for _ in range(t)]))
    return out


def write(r, p):
    """Write a rational point as sympy numbers (sometimes Python ints where possible)."""
    import sympy

    style = r.randrange(3)
    out = []
    for c in p:
        if style and c == int(c):
            out.append(int(c))
        else:
            out.append(sympy.Rational(c.numerator, c.denominator))
    return tuple(out) if style < 2 else tuple(sympy.sympify(c) for c in out)


def floats(r, p):
    """(point written with floats, is it exactly the same point?)"""
    import sympy

    f = [float(c) for c in p]
    exact = all(Fraction(a) == b for a, b in zip(f, p))
    return (tuple(sympy.Float(a) for a in f) if r.random() < 0.5 else tuple(f)), exact


def clear(cell, p):
    """Is the local point at least 1e-6 away (in barycentric terms) from the boundary?"""
    e = Fraction(1, 10**6)
    t = O.TDIM[cell]
    ds = list(p) + [1 - c for c in p]
    if cell in ("triangle", "tetrahedron"):
        ds.append(1 - sum(p))
    if cell == "prism":
        ds.append(1 - p[0] - p[1])
    if cell == "pyramid":
        ds += [1 - p[0] - p[2], 1 - p[1] - p[2]]
    assert t == len(p)
    return all(abs(d) > e for d in ds)


def ask(ctx, mech, key, fn, want, detail):
    """Ask a yes/no question; refusing is allowed, answering wrongly is not."""
    try:
        got = fn()
    except NotImplementedError:
        ctx.seen("refused", key)
        return None
    if not isinstance(got, bool):
        got = bool(got)
    ctx.expect(got == want, "point location", mech, f"answered {got} for {detail}", want=want, key=key)
    return got


def affine(r, cell):
    A, c, verts = O.rand_affine_cell(r, cell)
    return A, c, verts


def image(A, c, p):
    return [sum(A[i][j] * p[j] for j in range(len(p))) + c[i] for i in range(len(c))]


def contains(ctx, cell, other, gseed):
    import symfem

    r = random.Random(gseed)
    t = O.TDIM[cell]
    ident = [[Fraction(int(i == j)) for j in range(t)] for i in range(t)]
    for _ in range(2):
        A, c = ident, [Fraction(0)] * t
        if other:
            A, c, verts = affine(r, cell)
            ref = symfem.create_reference(cell, tuple(write(r, v) for v in verts))
        else:
            ref = symfem.create_reference(cell)
        answered = 0
        for kind, p in query_points(r, cell):
            want = O.bary_inside(cell, p)
            q = image(A, c, p)
            got = ask(
                ctx, f"contains:{cell}:{'affine' if other else 'default'}", f"contains|{cell}|{other}|{kind}",
                lambda: ref.contains(write(r, q)), want, (kind, [str(x) for x in q]),
            )  # fmt: skip
            answered += got is not None
            f, exact = floats(r, q)
            if clear(cell, p) or (exact and not other):
                ask(
                    ctx, f"contains:{cell}:float", f"contains|{cell}|{other}|{kind}|float",
                    lambda: ref.contains(f), want, (kind, f),
                )  # fmt: skip
        if not other or cell in ("triangle", "tetrahedron"):
            ctx.expect(
                answered > 0, "refused", f"contains refuses:{cell}:{other}", "contains answers no question at all on this cell",
                key=f"answers|{cell}|{other}",
            )  # fmt: skip


def point(ctx, gseed):
    import symfem

    r = random.Random(gseed)
    for g in (1, 2, 3):
        v = [O.rand_frac(r, -2, 2) for _ in range(g)]
        ref = symfem.create_reference("point", (O.spt(v),))
        for q in (v, [x + r.choice([0, Fraction(1, 7)]) for x in v], [O.rand_frac(r, -2, 2) for _ in range(g)]):
            ask(ctx, "contains:point", f"contains|point{g}", lambda: ref.contains(O.spt(q)), list(q) == list(v), q)
            ask(ctx, "at_vertex:point", f"at_vertex|point{g}", lambda: ref.at_vertex(O.spt(q)), list(q) == list(v), q)


def embedded(ctx, g, gseed):
    """Cells embedded in a higher dimension: exact or refused."""
    import symfem

    r = random.Random(gseed)
    for cell in ("interval", "triangle", "quadrilateral"):
        t = O.TDIM[cell]
        if t >= g:
            continue
        while True:
            axes = [[O.rand_frac(r, -2, 2) for _ in range(g)] for _ in range(t)]
            if O.rref_rank(axes) == t:
                break
        o = [O.rand_frac(r, -2, 2) for _ in range(g)]
        verts = [tuple(O.affine_point(o, axes, v)) for v in O.VERTS[cell]]
        ref = symfem.create_reference(cell, tuple(O.spt(v) for v in verts))
        for kind, p in query_points(r, cell):
            q = O.affine_point(o, axes, p)
            inside = O.bary_inside(cell, p)
            ask(ctx, f"contains:{cell}{g}", f"contains|{cell}{g}|{kind}", lambda: ref.contains(write(r, q)), inside, (kind, q))
            # a point of the cell pushed out of its plane
            k = r.randrange(g)
            q2 = list(q)
            q2[k] += 1
            span = O.rref_rank([*axes, [Fraction(int(i == k)) for i in range(g)]]) == t
            if not span:
                ask(ctx, f"contains:{cell}{g}", f"contains|{cell}{g}|off", lambda: ref.contains(write(r, q2)), False, ("off", q2))
            edge_face(ctx, ref, cell, g, verts, q, kind, r)
            if not span:
                edge_face(ctx, ref, cell, g, verts, q2, "off", r)


def on_simplex(verts, p):
    """Is p in the convex hull of affinely independent points?"""
    axes = [O.vsub(v, verts[0]) for v in verts[1:]]
    d = O.vsub(p, verts[0])
    if O.rref_rank([*axes, d]) > len(axes):
        return False
    G = [[O.dotp(a, b) for b in axes] for a in axes]
    s = O.solve(G, [O.dotp(a, d) for a in axes])
    return all(c >= 0 for c in s) and sum(s) <= 1


def edge_face(ctx, ref, cell, g, verts, p, kind, r):
    V = [list(v) for v in verts]
    want_e = any(on_simplex([V[i] for i in e], p) for e in O.sub_entities(cell, 1))
    faces = O.sub_entities(cell, 2) if O.TDIM[cell] >= 2 else []
    want_f = any(on_simplex([V[f[0]], V[f[1]], V[f[2]]], p) or (len(f) == 4 and on_simplex([V[f[3]], V[f[1]], V[f[2]]], p)) for f in faces)
    want_v = list(p) in V
    tag = f"{cell}{g}"
    for q, form in ((write(r, p), "tuple"), (tuple(O.spt(p)), "sympy")):
        ask(ctx, f"on_edge:{tag}", f"on_edge|{tag}|{kind}", lambda: ref.on_edge(q), want_e, (kind, [str(x) for x in q]))
        ask(ctx, f"on_face:{tag}", f"on_face|{tag}|{kind}", lambda: ref.on_face(q), want_f, (kind, [str(x) for x in q]))
        ask(ctx, f"at_vertex:{tag}", f"at_vertex|{tag}|{kind}", lambda: ref.at_vertex(q), want_v, (kind, [str(x) for x in q]))


def onedge(ctx, cell, gseed):
    import symfem

    r = random.Random(gseed)
    t = O.TDIM[cell]
    for k in range(2):
        if k:
            A, c, verts = affine(r, cell)
            ref = symfem.create_reference(cell, tuple(O.spt(v) for v in verts))
        else:
            A, c = [[Fraction(int(i == j)) for j in range(t)] for i in range(t)], [Fraction(0)] * t
            verts = O.VERTS[cell]
            ref = symfem.create_reference(cell)
        pts = query_points(r, cell)
        r.shuffle(pts)
        for kind, p in pts[: 12 if t == 3 else 30]:
            edge_face(ctx, ref, cell, t, verts, image(A, c, p), kind, r)


def convex_quad(r):
    """A convex quadrilateral (tensor numbering), either orientation, not a parallelogram in general."""
    while True:
        v = [[O.rand_frac(r, -3, 3) for _ in range(2)] for _ in range(4)]
        ring = [v[0], v[1], v[3], v[2]]
        cr = [turn(ring[i], ring[(i + 1) % 4], ring[(i + 2) % 4]) for i in range(4)]
        if all(c > 0 for c in cr) or all(c < 0 for c in cr):
            return v


def turn(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def in_quad(v, p):
    ring = [v[0], v[1], v[3], v[2]]
    s = [turn(ring[i], ring[(i + 1) % 4], p) for i in range(4)]
    return all(c >= 0 for c in s) or all(c <= 0 for c in s), min(abs(c) for c in s) > Fraction(1, 10**5)


def point_in(ctx, cell, gseed):
    from symfem import geometry as G
    import sympy

    r = random.Random(gseed)
    fn = getattr(G, f"point_in_{cell}")
    t = O.TDIM[cell]
    for rep in range(4):
        if rep == 0:
            A, c = [[Fraction(int(i == j)) for j in range(t)] for i in range(t)], [Fraction(0)] * t
            verts = [list(v) for v in O.VERTS[cell]]
        else:
            A, c, verts = affine(r, cell)
        general = cell == "quadrilateral" and rep % 2 == 1
        orient = "reflected" if O.det(A) < 0 else "direct"
        if general:
            verts = convex_quad(r)
            orient = "reflected" if turn(verts[0], verts[1], verts[2]) < 0 else "direct"
        cellin = tuple(write(r, v) for v in verts)
        if r.random() < 0.3:
            cellin = tuple(tuple(sympy.sympify(x) for x in v) for v in cellin)
        for kind, p in query_points(r, cell):
            if general:
                q = [
                    sum(w * v[i] for w, v in zip([(1 - p[0]) * (1 - p[1]), p[0] * (1 - p[1]), (1 - p[0]) * p[1], p[0] * p[1]], verts))
                    for i in range(2)
                ]  # fmt: skip
                want, far = in_quad(verts, q)
            else:
                q = image(A, c, p)
                want, far = O.bary_inside(cell, p), clear(cell, p)
            key = f"point_in_{cell}|{orient}|{general}|{kind}"
            mech = f"point_in_{cell}:{orient}"
            ask(ctx, mech, key, lambda: fn(tuple(O.spt(q)), tuple(O.spt(v) for v in verts)), want, (kind, [str(x) for x in q]))
            ask(ctx, mech, key + "|w", lambda: fn(tuple(O.spt(q)), cellin), want, (kind, [str(x) for x in q]))
            # floats: clear-cut points, and roundings of boundary points (documented tolerance)
            f = tuple(sympy.Float(float(x)) for x in q)
            on_boundary = want and not far and not kind.startswith("1e-9")
            if far or on_boundary:
                ask(ctx, mech + ":float", key + "|float", lambda: fn(f, tuple(O.spt(v) for v in verts)), want, (kind, f))
                vf = tuple(tuple(sympy.Float(float(x)) for x in v) for v in verts)
                ask(ctx, mech + ":float", key + "|allfloat", lambda: fn(f, vf), want, (kind, f))
        # irrational points: on the diagonal-ish line between two vertices at parameter sqrt(2)/2
        i, j = r.sample(range(len(verts)), 2)
        for s, inside in ((sympy.sqrt(2) / 2, True), (sympy.sqrt(2), None), (-sympy.sqrt(3) / 3, None)):
            q = tuple(sympy.expand(a + s * (b - a)) for a, b in zip(O.spt(verts[i]), O.spt(verts[j])))
            if inside is None:
                inside = False
            ask(
                ctx, mech + ":irrational", f"point_in_{cell}|irrational|{inside}", lambda: fn(q, tuple(O.spt(v) for v in verts)),
                inside, q,
            )  # fmt: skip


def triangle3d(ctx, gseed):
    from symfem import geometry as G

    r = random.Random(gseed)
    for _ in range(2):
        while True:
            axes = [[O.rand_frac(r, -2, 2) for _ in range(3)] for _ in range(2)]
            if O.rref_rank(axes) == 2:
                break
        o = [O.rand_frac(r, -2, 2) for _ in range(3)]
        verts = [O.affine_point(o, axes, v) for v in O.VERTS["triangle"]]
        n = O.cross(axes[0], axes[1])
        for kind, p in query_points(r, "triangle"):
            q = O.affine_point(o, axes, p)
            vs = tuple(O.spt(v) for v in verts)
            ask(
                ctx,
                "point_in_triangle:3D",
                f"triangle3d|{kind}",
                lambda: G.point_in_triangle(O.spt(q), vs),
                O.bary_inside("triangle", p),
                q,
            )
            q2 = [a + b * Fraction(1, 3) for a, b in zip(q, n)]
            ask(ctx, "point_in_triangle:3D off the plane", f"triangle3d|off|{kind}", lambda: G.point_in_triangle(O.spt(q2), vs), False, q2)


# -- intersections ------------------------------------------------------------------------------
def axes_of(cell, verts):
    """Candidate separating axes of two convex bodies come from face normals and edges."""
    V = [list(v) for v in verts]
    E = [O.vsub(V[b], V[a]) for a, b in O.sub_entities(cell, 1)]
    if len(V[0]) == 2:
        return [[-e[1], e[0]] for e in E], E
    return [O.cross(O.vsub(V[f[1]], V[f[0]]), O.vsub(V[f[2]], V[f[0]])) for f in O.sub_entities(cell, 2)], E


def interiors_meet(c1, v1, c2, v2):
    n1, e1 = axes_of(c1, v1)
    n2, e2 = axes_of(c2, v2)
    ax = n1 + n2
    if len(v1[0]) == 3:
        ax = ax + [O.cross(a, b) for a in e1 for b in e2]
    for a in ax:
        if not any(a):
            continue
        p1 = [O.dotp(a, list(v)) for v in v1]
        p2 = [O.dotp(a, list(v)) for v in v2]
        if max(p1) <= min(p2) or max(p2) <= min(p1):
            return False
    return True


def inside(p, cell, verts):
    """Is p in the convex cell (affine image)?"""
    o, axes = O.frame(cell, [tuple(v) for v in verts])
    Ai, b = O.inverse_affine(o, axes)
    return O.bary_inside(cell, [x + y for x, y in zip(O.matvec(Ai, list(p)), b)])


def intersection(ctx, g, gseed):
    import symfem

    r = random.Random(gseed)
    kinds = ["triangle", "quadrilateral"] if g == 2 else ["tetrahedron", "hexahedron", "prism", "pyramid"]
    weights = [3, 1] if g == 2 else [5, 1, 1, 1]

    def one(c):
        k = r.random()
        if k < 0.3:
            return c, [[Fraction(x) for x in v] for v in O.VERTS[c]]
        A, b, verts = affine(r, c)
        if k < 0.6:
            verts = [[x / 4 + Fraction(1, 4) for x in v] for v in verts]
        return c, [[Fraction(x) for x in v] for v in verts]

    for rep in range(6):
        c1, v1 = one(r.choices(kinds, weights)[0])
        mode = r.random()
        if mode < 0.35 and c1 in ("triangle", "tetrahedron"):
            # something inside it: convex combinations of its vertices
            w = []
            while True:
                w = []
                for _ in range(g + 1):
                    k = [Fraction(r.choice([0, 0, 1, 1, 2])) for _ in v1]
                    if not any(k):
                        k[0] = Fraction(1)
                    w.append([sum(a * v[i] for a, v in zip(k, v1)) / sum(k) for i in range(g)])
                if O.rref_rank([O.vsub(x, w[0]) for x in w[1:]]) == g:
                    break
            c2, v2 = c1, w
        elif mode < 0.6:
            # a neighbour across a facet: reflect one vertex through it
            c2 = "triangle" if g == 2 else "tetrahedron"
            f = r.choice(O.sub_entities(c1, g - 1))
            fv = [v1[i] for i in f[:g]]
            m = [sum(v[i] for v in fv) / g for i in range(g)]
            apex = [sum(v[i] for v in v1) / len(v1) for i in range(g)]
            k = r.choice([1, 1, Fraction(1, 2), -Fraction(1, 3)])
            v2 = [*fv, [a + k * (a - b) for a, b in zip(m, apex)]]
            r.shuffle(v2)
        else:
            c2, v2 = one(r.choices(kinds, weights)[0])
        R1 = symfem.create_reference(c1, tuple(O.spt(v) for v in v1))
        R2 = symfem.create_reference(c2, tuple(O.spt(v) for v in v2))
        for a, b in ((R1, R2), (R2, R1)):
            try:
                got = a.intersection(b)
            except NotImplementedError:
                ctx.seen("refused", f"intersection|{c1}|{c2}")
                continue
            meet = interiors_meet(c1, v1, c2, v2)
            if got is None:
                ctx.expect(
                    not meet, "intersection", f"intersection:{g}D none", f"{c1} and {c2} overlap, but their intersection is None",
                    first=[[str(x) for x in v] for v in v1], second=[[str(x) for x in v] for v in v2], key=f"none|{c1}|{c2}",
                )  # fmt: skip
                continue
            vg = [[O.num(x) for x in v] for v in got.vertices]
            in1 = all(inside(p, c1, v1) for p in vg)
            in2 = all(inside(p, c2, v2) for p in vg)
            same = (got.name == c1 and vg == v1 and in2) or (got.name == c2 and vg == v2 and in1)
            ctx.expect(
                same and got.gdim == g, "intersection", f"intersection:{g}D cell", f"the intersection of {c1} and {c2} is given as {got.name} {vg}",
                first=[[str(x) for x in v] for v in v1], second=[[str(x) for x in v] for v in v2], key=f"cell|{c1}|{c2}",
            )  # fmt: skip
    try:
        symfem.create_reference("triangle").intersection(symfem.create_reference("tetrahedron"))
        ctx.violate("intersection:dimensions", "cells of different dimension are accepted")
    except (ValueError, NotImplementedError):
        ctx.seen("refused", "intersection of different dimensions")


# -- lattices and plotting orders ----------------------------------------------------------------
def counts(cell, n):
    """Numbers of points that `n points along each edge` can mean (n or n + 1 in each direction)."""
    tri = lambda m: m * (m + 1) // 2  # noqa: E731
    tet = lambda m: m * (m + 1) * (m + 2) // 6  # noqa: E731
    out = set()
    for m in (n, n + 1):
        out |= {
            "interval": {m}, "triangle": {tri(m)}, "quadrilateral": {m**2}, "tetrahedron": {tet(m)}, "hexahedron": {m**3},
            "prism": {tri(m) * n, tri(m) * (n + 1)}, "pyramid": set(),
        }[cell]  # fmt: skip
    return out


def lattice(ctx, cell, nmax, gseed):
    import symfem

    r = random.Random(gseed)
    t = O.TDIM[cell]
    ref = symfem.create_reference(cell)
    A, c, verts = affine(r, cell)
    other = symfem.create_reference(cell, tuple(O.spt(v) for v in verts))
    for n in range(1, nmax + 1):
        key = f"lattice|{cell}|{n}"
        try:
            L = ref.make_lattice(n)
        except NotImplementedError:
            ctx.seen("refused", key)
            L = None
        if L is not None:
            pts = [tuple(O.num(x) for x in p) for p in L]
            bad = [p for p in pts if len(p) != t or not O.bary_inside(cell, p, strict=True)]
            ctx.expect(not bad, "lattice", f"lattice inside:{cell}", f"n={n}: points on or outside the boundary: {bad[:3]}", key=key)
            ctx.expect(len(set(pts)) == len(pts), "lattice", f"lattice distinct:{cell}", f"n={n}", key=key)
            ctx.expect(len(pts) in counts(cell, n), "lattice", f"lattice size:{cell}", f"n={n}: {len(pts)} points", key=key)
            fl = ref.make_lattice_float(n)
            ctx.expect(
                len(fl) == len(pts) and all(abs(float(a) - float(b)) < 1e-12 for p, q in zip(fl, pts) for a, b in zip(p, q)),
                "lattice", f"lattice float:{cell}", f"n={n}", key=key + "|float",
            )  # fmt: skip
            try:
                M = [tuple(O.num(x) for x in p) for p in other.make_lattice(n)]
            except (AssertionError, NotImplementedError):
                ctx.seen("refused", key + "|affine")
            else:
                ctx.expect(
                    M == [tuple(image(A, c, p)) for p in pts], "lattice", f"lattice affine:{cell}",
                    f"n={n}: the lattice of the mapped cell is not the mapped lattice", key=key + "|affine",
                )  # fmt: skip
        if n < 2:
            continue
        try:
            P, pairs = ref.make_lattice_with_lines(n)
        except NotImplementedError:
            ctx.seen("refused", key + "|lines")
            continue
        pts = [tuple(O.num(x) for x in p) for p in P]
        mesh(ctx, cell, n, pts, pairs, key)
        P2, pairs2 = other.make_lattice_with_lines(n)
        ctx.expect(
            [tuple(O.num(x) for x in p) for p in P2] == [tuple(image(A, c, p)) for p in pts] and list(pairs2) == list(pairs),
            "lattice", f"lines affine:{cell}", f"n={n}", key=key + "|lines affine",
        )  # fmt: skip
        PF, pairsf = ref.make_lattice_with_lines_float(n)
        ctx.expect(
            list(pairsf) == list(pairs)
            and len(PF) == len(pts) and all(abs(float(a) - float(b)) < 1e-12 for p, q in zip(PF, pts) for a, b in zip(p, q)),
            "lattice", f"lines float:{cell}", f"n={n}", key=key + "|lines float",
        )  # fmt: skip


def mesh(ctx, cell, n, pts, pairs, key):
    t = O.TDIM[cell]
    full = {"interval": n, "triangle": n * (n + 1) // 2, "quadrilateral": n * n}[cell]
    tri = {"interval": n - 1, "triangle": 3 * n * (n - 1) // 2, "quadrilateral": 2 * n * (n - 1) + (n - 1) ** 2}[cell]
    m = lambda q: f"lines {q}:{cell}"  # noqa: E731
    ctx.expect(all(O.bary_inside(cell, p) for p in pts), "lattice", m("inside"), f"n={n}", key=key + "|lines")
    ctx.expect(len(set(pts)) == len(pts) == full, "lattice", m("points"), f"n={n}: {len(set(pts))} points", want=full, key=key + "|lines")
    want = {tuple(Fraction(i, n - 1) for i in k) for k in __import__("itertools").product(range(n), repeat=t)}
    want = {p for p in want if O.bary_inside(cell, p)}
    ctx.expect(set(pts) == want, "lattice", m("points are the equispaced ones"), f"n={n}", key=key + "|lines")
    ok = all(isinstance(a, int) and isinstance(b, int) and 0 <= a < len(pts) and 0 <= b < len(pts) and a != b for a, b in pairs)
    if not ctx.expect(ok, "lattice", m("indices"), f"n={n}: {pairs[:5]}", key=key + "|lines"):
        return
    und = {tuple(sorted(e)) for e in pairs}
    ctx.expect(len(und) == len(pairs), "lattice", m("repeated"), f"n={n}", key=key + "|lines")
    # neighbours only: every line is between lattice points at distance one in each direction
    h = Fraction(1, n - 1)
    far = [e for e in und if any(abs(a - b) > h for a, b in zip(pts[e[0]], pts[e[1]]))]
    ctx.expect(not far, "lattice", m("far"), f"n={n}: lines between points that are not neighbours: {far[:3]}", key=key + "|lines")
    ctx.expect(len(und) == tri, "lattice", m("missing"), f"n={n}: {len(und)} lines", want=tri, key=key + "|lines")
    if t == 2:
        cross = 0
        E = sorted(und)
        for i, (a, b) in enumerate(E):
            for c, d in E[i + 1 :]:
                if {a, b} & {c, d}:
                    continue
                A, B, C, D = pts[a], pts[b], pts[c], pts[d]
                if turn(A, B, C) * turn(A, B, D) < 0 and turn(C, D, A) * turn(C, D, B) < 0:
                    cross += 1
        ctx.expect(not cross, "lattice", m("crossing"), f"n={n}: {cross} pairs of lines cross", key=key + "|lines")


def every_entity_once(ctx, ref, name, lists, mech):
    flat = [tuple(e) for level in lists for e in level]
    want = sorted((d, i) for d in range(ref.tdim + 1) for i in range(ref.sub_entity_count(d)))
    ctx.expect(
        sorted(flat) == want, "plot order", f"{mech}:{name}", "not every sub-entity is listed exactly once",
        got=sorted(flat), want=want, key=f"{mech}|{name}",
    )  # fmt: skip


def zorder(ctx, cell):
    import symfem

    ref = symfem.create_reference(cell)
    every_entity_once(ctx, ref, cell, ref.z_ordered_entities(), "z_ordered_entities")
    every_entity_once(ctx, ref, cell, ref.z_ordered_entities_extra_dim(), "z_ordered_entities_extra_dim")
    cl = list(ref.clockwise_vertices)
    ctx.expect(
        len(set(cl)) == len(cl) and set(cl) <= set(ref.vertices), "outline", f"clockwise_vertices:{cell}", "not distinct vertices of the cell",
        key=f"outline|{cell}",
    )  # fmt: skip
    # the cell between the faces behind it and the faces in front of it, seen from the picture's direction
    t = ref.tdim
    if t == 2:
        pts = [tuple(O.num(x) for x in v) for v in cl]
        s = [turn(pts[i], pts[(i + 1) % len(pts)], pts[(i + 2) % len(pts)]) for i in range(len(pts))]
        ctx.expect(
            len(cl) == len(ref.vertices) and (all(x > 0 for x in s) or all(x < 0 for x in s)), "outline", f"clockwise_vertices:{cell}",
            f"the vertices are not in cyclic order: {cl}", key=f"outline|{cell}|cyclic",
        )  # fmt: skip


def dual(ctx, k):
    import symfem

    ref = symfem.create_reference(f"dual polygon({k})")
    every_entity_once(ctx, ref, f"dual polygon({k})", ref.z_ordered_entities(), "z_ordered_entities")
    every_entity_once(ctx, ref, f"dual polygon({k})", ref.z_ordered_entities_extra_dim(), "z_ordered_entities_extra_dim")
    import sympy

    try:
        ref.contains((sympy.Integer(0), sympy.Integer(0)))
        ctx.violate("contains:dual polygon", "answers although it cannot know")
    except NotImplementedError:
        ctx.seen("refused", f"contains|dual polygon({k})")
    V = [tuple(float(x) for x in v) for v in ref.vertices]
    edges = [tuple(e) for e in ref.edges]
    ctx.expect(
        sorted(tuple(sorted(e)) for e in edges) == sorted(tuple(sorted((i, (i + 1) % len(V)))) for i in range(len(V))),
        "connectivity", "dual polygon:edges", f"{edges}", key=f"dual|{k}|edges",
    )  # fmt: skip
    for n in (2, 3, 4, 6):
        L = ref.make_lattice(n)
        pts = [tuple(float(x) for x in p) for p in L]
        inside_all = all(
            all(turn(V[i], V[(i + 1) % len(V)], p) > -1e-12 for i in range(len(V))) for p in pts
        )  # star-shaped around the origin is enough for even k; polygons here are regular
        ctx.expect(inside_all, "lattice", "lattice inside:dual polygon", f"k={k} n={n}", key=f"dual|{k}|lattice{n}")
        far = all(max(abs(a[0] - b[0]), abs(a[1] - b[1])) > 1e-9 for i, a in enumerate(pts) for b in pts[:i])
        ctx.expect(far, "lattice", "lattice distinct:dual polygon", f"k={k} n={n}", key=f"dual|{k}|distinct{n}")
        per = len(pts) / len(V)
        m = n // 2
        ctx.expect(
            per in (m * (m + 1) / 2, (m + 1) * (m + 2) / 2),
            "lattice",
            "lattice size:dual polygon",
            f"k={k} n={n}: {len(pts)} points",
            key=f"dual|{k}|size{n}",
        )
