"""P07: cell maps, inverse maps, measures, normals and tangents."""

import random
from fractions import Fraction

from harness import fem
from harness import oracle as O
from harness.core import Case

PROPERTY = "P07"
TECHNIQUE = "runtime monitor: geometry queries on random cells compared with an exact affine-geometry oracle"
RULE = (
    "One case = one cell type in one geometric dimension; it draws affine images of the reference "
    "cell (generic rational ones and axis-parallel or flat ones with many zero coordinates, either "
    "orientation, embedded for lower-dimensional cells) and checks every map, inverse map, measure, "
    "axis, midpoint, normal, tangent, local point, integration limit and sub-entity against tables "
    "and linear algebra of the oracle. Distinct = cell x gdim x query x sub-entity."
)
ASSUMPTIONS = ["volumes, Jacobians and inverse maps are judged on affine images only (symfem refuses to invert other maps)"]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 400}
FLOOR = 1500

WHERE = {
    "interval": (1, 2, 3), "triangle": (2, 3), "quadrilateral": (2, 3), "tetrahedron": (3,),
    "hexahedron": (3,), "prism": (3,), "pyramid": (3,),
}  # fmt: skip


def cases(tier, seed):
    rng = random.Random(f"p07/{seed}")
    out = [Case("tables", "tables", []), Case("points", "points", [rng.randint(0, 10**9)])]
    reps = 15 if tier == "quick" else 400
    for cell, gs in WHERE.items():
        for g in gs:
            for k in range(reps):
                out.append(Case(f"geometry/{cell}{g}/{k}", "geometry", [cell, g, rng.randint(0, 10**9), 4], 1 + O.TDIM[cell]))
        if cell in ("quadrilateral", "hexahedron", "prism", "pyramid"):
            for k in range(reps):
                out.append(Case(f"multilinear/{cell}/{k}", "multilinear", [cell, rng.randint(0, 10**9), 4], 2))
    for n in range(3, 8):
        out.append(Case(f"dual polygon/{n}", "dualpoly", [n]))
    return out


TYPES = {
    "interval": ["point", "interval"], "triangle": ["point", "interval", "triangle"],
    "quadrilateral": ["point", "interval", "quadrilateral"],
    "tetrahedron": ["point", "interval", "triangle", "tetrahedron"],
    "hexahedron": ["point", "interval", "quadrilateral", "hexahedron"],
}  # fmt: skip


def tables(ctx):
    """The topology of the reference cells."""
    import symfem

    for cell in WHERE:
        ref = symfem.create_reference(cell)
        t = O.TDIM[cell]
        key = lambda q: f"{cell}|{q}"  # noqa: E731
        verts = [tuple(O.num(c) for c in v) for v in ref.vertices]
        ctx.expect(verts == [tuple(v) for v in O.VERTS[cell]], "vertices", f"{cell}:vertices", f"{verts}", key=key("vertices"))
        ctx.expect(ref.tdim == t and ref.gdim == t and ref.name == cell, "dimension", f"{cell}:dimension", key=key("dim"))
        for d in range(t + 1):
            got = tuple(tuple(e) for e in ref.sub_entities(d))
            want = tuple(tuple(e) for e in O.sub_entities(cell, d))
            ctx.expect(got == want, "sub-entities", f"{cell}:sub_entities({d})", got=got, want=want, key=key(d))
            ctx.expect(
                tuple(tuple(e) for e in ref.sub_entities(codim=t - d)) == want and ref.sub_entity_count(d) == len(want)
                and ref.sub_entity_count(codim=t - d) == len(want),
                "sub-entities", f"{cell}:codim({t - d})", key=key(f"co{d}"),
            )  # fmt: skip
        ctx.expect(
            ref == ref.default_reference() and hash(ref) == hash(ref.default_reference()), "default", f"{cell}:default", key=key("default")
        )
        ctx.expect(ref.simplex == (cell in ("interval", "triangle", "tetrahedron")), "flags", f"{cell}:simplex", key=key("simplex"))
        if cell not in ("prism", "pyramid"):  # undocumented and unused there
            ctx.expect(ref.tp == (cell in ("interval", "quadrilateral", "hexahedron")), "flags", f"{cell}:tp", key=key("tp"))
        for other in WHERE:
            ctx.expect(
                (symfem.create_reference(other) == ref) == (other == cell), "equality", f"{cell}:equality",
                key=f"{cell}|{other}",
            )  # fmt: skip
        for dim in (t + 1, 4, -1):
            if dim <= 3 and dim >= 0:
                n = ref.sub_entity_count(dim)
                ctx.expect(n == 0, "none above", f"{cell}:sub_entity_count({dim})", got=n, key=key(f"above{dim}"))


def rand_axes(r, t, g):
    """Independent axes; half of the time with many zeros (axis-parallel, vertical, ...)."""
    while True:
        if r.random() < 0.5:
            axes = [[O.rand_frac(r, -3, 3) for _ in range(g)] for _ in range(t)]
        else:
            axes = [[Fraction(r.choice([0, 0, 1, -1, 2])) for _ in range(g)] for _ in range(t)]
        if O.rref_rank(axes) == t:
            return axes


def rand_cell(r, cell, g):
    t = O.TDIM[cell]
    axes = rand_axes(r, t, g)
    o = [O.rand_frac(r, -3, 3) for _ in range(g)]
    return o, axes, [tuple(O.affine_point(o, axes, v)) for v in O.VERTS[cell]]


def at(exprs, pt):
    """A map (tuple of sympy expressions in x, y, z) at a point."""
    env = dict(zip(("x", "y", "z"), [O.num(v) for v in pt]))
    return [O.ev(__import__("sympy").sympify(e), env) for e in exprs]


def same(a, b):
    return len(a) == len(b) and all(O.close(x, y) for x, y in zip(a, b))


def write(r, verts):
    import sympy

    k = r.randrange(3)
    pts = [O.spt(v) for v in verts]
    if k == 0:
        return tuple(pts)
    if k == 1:
        return [list(p) for p in pts]
    return tuple(tuple(int(c) if c == int(c) else sympy.Rational(c.numerator, c.denominator) for c in v) for v in verts)


def geometry(ctx, cell, g, gseed, reps):
    import sympy
    import symfem

    r = random.Random(gseed)
    t = O.TDIM[cell]
    for rep in range(reps):
        o, axes, verts = rand_cell(r, cell, g)
        vin = write(r, verts)
        mech = lambda q: f"{cell}{g}:{q}"  # noqa: E731
        key = f"{cell}{g}"
        ref0 = symfem.create_reference(cell)
        ref = symfem.create_reference(cell, tuple(O.spt(v) for v in verts))
        C = fem.Cell(cell, verts)
        pts = [O.rand_point_in(r, cell, 30) for _ in range(2)] + [O.VERTS[cell][r.randrange(len(verts))]]
        if cell == "pyramid":
            pts = pts[:2]

        def check(cond, q, msg="", **kw):
            return ctx.expect(cond, q.split("(")[0], mech(q), msg, key=f"{key}|{q}", **kw)

        # maps
        fwd = ref0.get_map_to(vin)
        own = ref.get_map_to_self()
        for q in pts:
            p = O.affine_point(o, axes, q)
            got = at(fwd, q)
            check(same(got, p), "get_map_to", f"image of {q}", got=got, want=p)
            got = at(own, q)
            check(same(got, p), "get_map_to_self", f"image of {q}", got=got, want=p)
        for i, v in enumerate(O.VERTS[cell]):
            if cell == "pyramid" and i == 4:
                continue
            check(same(at(fwd, v), verts[i]), "get_map_to:vertices", f"vertex {i} of {verts}")
        if g == t or cell in ("interval", "quadrilateral"):
            inv = ref0.get_inverse_map_to(vin)
            for q in pts:
                got = at(inv, O.affine_point(o, axes, q))
                check(same(got, q), "get_inverse_map_to", f"preimage of the image of {q} under the map to {verts}", got=got)
        inv = ref.get_inverse_map_to_self()
        for q in pts:
            got = at(inv, O.affine_point(o, axes, q))
            check(same(got, q), "get_inverse_map_to_self", f"preimage of the image of {q}, cell {verts}", got=got)
        # measures
        meas = O.gram_measure(axes)
        vol = O.mul(meas, O.integrate_ref(O.Poly.const(t, O.F1), cell))
        check(O.close(O.num(ref.jacobian()), meas), "jacobian", got=ref.jacobian(), want=meas)
        check(O.close(O.num(ref.volume()), vol), "volume", got=ref.volume(), want=vol)
        # volume by integrating the limits
        lim = ref.integration_limits()
        e = ref.jacobian()
        k = tuple(r.randint(0, 2) for _ in range(t))
        from symfem.symbols import t as tv

        e = e * sympy.Mul(*[tv[i] ** k[i] for i in range(t)])
        for L in lim:
            e = sympy.integrate(sympy.expand(e), L)
        want = O.mul(meas, O.mono_integral(k, cell))
        check(O.close(O.num(e), want), "integration_limits", f"monomial {k}", got=e, want=want)
        names = sympy.symbols("u0 u1 u2")
        ren = dict(zip(tv, names))
        check(
            [tuple(sympy.sympify(c).subs(ren) for c in L) for L in lim] == [tuple(L) for L in ref.integration_limits(names)],
            "integration_limits(vars)", "limits in other variables differ",
        )  # fmt: skip
        # axes, midpoint, points
        check(same([O.num(c) for c in ref.origin], verts[0]), "origin")
        for a, b in zip(ref.axes, axes):
            check(same([O.num(c) for c in a], b), "axes", got=a, want=b)
        for a, b in zip(ref.scaled_axes(), axes):
            n = O.norm(b)
            check(same([O.num(c) for c in a], [O.div(c, n) for c in b]), "scaled_axes", got=a, want=b)
        mid = [sum((O.num(v[i]) for v in verts), O.F0) / len(verts) for i in range(g)]
        check(same([O.num(c) for c in ref.midpoint()], mid), "midpoint", got=ref.midpoint(), want=mid)
        for q in pts:
            check(same([O.num(c) for c in ref.get_point(O.spt(q))], O.affine_point(o, axes, q)), "get_point")
        check(
            ref == symfem.create_reference(cell, vin) and hash(ref) == hash(symfem.create_reference(cell, vin)),
            "equality",
            "equal cells compare unequal",
        )
        if list(verts) != [tuple(v) for v in O.VERTS[cell]]:
            check(ref != ref0, "equality", "different cells compare equal")
        d = ref.default_reference()
        check([tuple(O.num(c) for c in v) for v in d.vertices] == [tuple(v) for v in O.VERTS[cell]], "default_reference")
        if t == 2:
            cw = [tuple(O.num(c) for c in v) for v in ref.clockwise_vertices]
            pairs = {frozenset((verts[a], verts[b])) for a, b in O.sub_entities(cell, 1)}
            check(
                sorted(cw) == sorted(verts)
                and all(frozenset((cw[i], cw[(i + 1) % len(cw)])) in pairs for i in range(len(cw))),
                "clockwise_vertices", got=cw,
            )  # fmt: skip
        # sub-entities
        for dim in range(t + 1):
            for n, e in enumerate(O.sub_entities(cell, dim)):
                sub = ref.sub_entity(dim, n)
                S = C.sub(dim, n)
                q = f"sub_entity({dim})"
                check(
                    sub.name == O.entity_type(dim, len(e)) if dim else sub.name == "point", q, f"type of {dim},{n}",
                    got=sub.name,
                )  # fmt: skip
                check(
                    [tuple(O.num(c) for c in v) for v in sub.vertices] == [tuple(verts[i]) for i in e], q,
                    f"vertices of sub-entity {dim},{n}", got=sub.vertices, want=[verts[i] for i in e],
                )  # fmt: skip
                check(sub.tdim == dim and sub.gdim == g, q, "dimensions")
                rs = ref.sub_entity(dim, n, True)
                check(
                    [tuple(O.num(c) for c in v) for v in rs.vertices] == [tuple(O.VERTS[cell][i]) for i in e],
                    f"sub_entity({dim},reference)", f"vertices of {dim},{n}", got=rs.vertices,
                )  # fmt: skip
                if dim == 0:
                    continue
                m = O.mul(S.meas, O.integrate_ref(O.Poly.const(dim, O.F1), S.name))
                check(O.close(O.num(sub.volume()), m), f"volume({dim})", f"sub-entity {dim},{n}", got=sub.volume(), want=m)
                if dim == 1:
                    check(same([O.num(c) for c in sub.tangent()], S.tangent()), "tangent", f"edge {n}", got=sub.tangent(), want=S.tangent())
                if (dim, g) in ((1, 2), (2, 3)):
                    nn = [O.num(c) for c in sub.normal()]
                    check(same(nn, S.normal()), "normal", f"facet {n}", got=sub.normal(), want=S.normal())
                lq = O.rand_point_in(r, S.name, 30)
                p = O.affine_point(S.o, S.axes, lq)
                check(same(at(sub.get_map_to_self(), lq), p), f"get_map_to_self({dim})", f"sub-entity {n}")
                got = at(sub.get_inverse_map_to_self(), p)
                check(same(got, lq), f"get_inverse_map_to_self({dim})", f"sub-entity {n} of {verts}", got=got, want=lq)
        check([tuple(O.num(c) for c in v) for v in ref.vertices] == [tuple(v) for v in verts], "unchanged", "vertices changed")
    ctx.sample({"cell": cell, "gdim": g, "last vertices": str(verts)})


def multilinear(ctx, cell, gseed, reps):
    """Images of the vertices for general (not parallel) vertices; the map is multilinear."""
    import symfem

    r = random.Random(gseed)
    t = O.TDIM[cell]
    for _ in range(reps):
        g = r.choice((2, 3)) if cell == "quadrilateral" else 3
        verts = [tuple(O.rand_frac(r, -3, 3) for _ in range(g)) for _ in O.VERTS[cell]]
        vin = write(r, verts)
        ref0 = symfem.create_reference(cell)
        ref = symfem.create_reference(cell, tuple(O.spt(v) for v in verts))
        for what, m in (("get_map_to", ref0.get_map_to(vin)), ("get_map_to_self", ref.get_map_to_self())):
            for i, v in enumerate(O.VERTS[cell]):
                if cell == "pyramid" and i == 4:
                    continue
                ctx.expect(
                    same(at(m, v), verts[i]), "vertex image", f"{cell}:{what}:general", f"vertex {i} of {verts}",
                    got=at(m, v), want=verts[i], key=f"{cell}|{what}|{i}",
                )  # fmt: skip
            # affine along every edge
            for e in O.sub_entities(cell, 1):
                if cell == "pyramid" and 4 in e:
                    continue
                s = Fraction(r.randint(1, 9), 10)
                q = [a + s * (b - a) for a, b in zip(O.VERTS[cell][e[0]], O.VERTS[cell][e[1]])]
                want = [a + s * (b - a) for a, b in zip(verts[e[0]], verts[e[1]])]
                ctx.expect(
                    same(at(m, q), want), "edge image", f"{cell}:{what}:general", f"edge {e} of {verts}",
                    got=at(m, q), want=want, key=f"{cell}|{what}|edge{e}",
                )  # fmt: skip
            if cell in ("quadrilateral", "hexahedron"):
                q = O.rand_point_in(r, cell, 30)
                want = [O.F0] * g
                for v, p in zip(O.VERTS[cell], verts):
                    w = O.F1
                    for a, b in zip(v, q):
                        w = w * (b if a == 1 else 1 - b)
                    want = [a + w * b for a, b in zip(want, p)]
                ctx.expect(same(at(m, q), want), "multilinear", f"{cell}:{what}:general", f"at {q}", key=f"{cell}|{what}|inside")
        # an inverse of such a map is not offered, or it is right
        for what, get in (
            ("get_inverse_map_to", lambda: ref0.get_inverse_map_to(vin)),
            ("get_inverse_map_to_self", lambda: ref.get_inverse_map_to_self()),
        ):
            try:
                inv = get()
            except (AssertionError, NotImplementedError, RuntimeError):
                ctx.seen("inverse refused", f"{cell}|{what}")
                continue
            q = O.rand_point_in(r, cell, 30)
            got = at(inv, at(m, q))
            ctx.expect(same(got, q), "inverse", f"{cell}:{what}:general", f"wrong inverse for {verts}", key=f"{cell}|{what}|inv")


def points(ctx, gseed):
    import symfem

    r = random.Random(gseed)
    for g in (0, 1, 2, 3):
        ref = symfem.create_reference("point") if g == 0 else None
        if g:
            v = tuple(O.rand_frac(r, -3, 3) for _ in range(g))
            ref = symfem.create_reference("point", (O.spt(v),))
            ctx.expect(tuple(O.num(c) for c in ref.vertices[0]) == v, "point", "point:vertices", key=f"{g}")
            ctx.expect(ref.gdim == g and ref.tdim == 0, "point", "point:dimension", key=f"dim{g}")
            ctx.expect(tuple(O.num(c) for c in ref.midpoint()) == v, "point", "point:midpoint", key=f"mid{g}")
        ctx.expect(ref.sub_entity_count(0) == 1 and ref.name == "point", "point", "point:name", key=f"name{g}")


def dualpoly(ctx, n):
    """The dual polygon: 2n vertices around the origin, edges between consecutive ones."""
    import symfem

    ref = symfem.create_reference(f"dual polygon({n})")
    mech = lambda q: f"dual polygon:{q}"  # noqa: E731
    ctx.expect(len(ref.vertices) == 2 * n, "count", mech("vertices"), key=f"{n}|v")
    V = [[O.num(c) for c in v] for v in ref.vertices]
    ctx.expect([tuple(e) for e in ref.edges] == [(i, (i + 1) % (2 * n)) for i in range(2 * n)], "edges", mech("edges"), key=f"{n}|e")
    for i, v in enumerate(V):
        rad = O.norm(v)
        want = 1 if i % 2 == 0 else O.mpf(1) * O.ev(__import__("sympy").cos(__import__("sympy").pi / n), {})
        ctx.expect(O.close(rad, O.num(want)), "radius", mech("vertices"), f"vertex {i}", key=f"{n}|r{i % 2}")
        w = V[(i + 1) % (2 * n)]
        area = O.tomp(v[0]) * O.tomp(w[1]) - O.tomp(v[1]) * O.tomp(w[0])
        ctx.expect(area > 0, "orientation", mech("orientation"), f"vertex {i}", key=f"{n}|o")
    for i in range(2 * n):
        e = ref.sub_entity(1, i)
        ctx.expect(
            [list(map(O.num, v)) for v in e.vertices] == [V[i], V[(i + 1) % (2 * n)]], "sub_entity", mech("sub_entity"), key=f"{n}|{i}"
        )
