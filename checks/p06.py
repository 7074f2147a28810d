"""P06: mappings undo each other and preserve the moments they are made for."""

import random

from harness import fem, gen
from harness import oracle as O
from harness.core import Case
from checks.p05 import Affine, mm, scale

PROPERTY = "P06"
TECHNIQUE = "runtime monitor: mapped random fields checked against mapping identities and preserved moments"
RULE = (
    "One case = one mapping on one cell type with several random affine maps (either orientation) "
    "and random plain, raw, lazy and piecewise fields. Checked exactly at random points: the mapping "
    "against its definition (substitute True and False), the inverse undoing it, the inverse "
    "transpose preserving the pairing, and the line integrals, fluxes, integrals, tangent-tangent "
    "and normal-normal moments over every sub-entity computed by the oracle before and after. "
    "Distinct = mapping x cell x field form x identity."
)
ASSUMPTIONS = ["maps are affine and invertible"]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 400}
FLOOR = 1000

MAPS = {
    "identity": "svm", "l2": "svm", "covariant": "v", "contravariant": "v",
    "double_covariant": "m", "double_contravariant": "m",
}  # fmt: skip
CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]
HAS_IT = ("identity", "l2", "covariant", "contravariant")


def cases(tier, seed):
    rng = random.Random(f"p06/{seed}")
    out = [Case("get_mapping", "getters", [rng.randint(0, 10**9)])]
    reps = 2 if tier == "quick" else 24
    for m, kinds in MAPS.items():
        for cell in CELLS:
            for kind in kinds:
                if O.TDIM[cell] == 1 and (kind != "s"):
                    continue
                for k in range(reps):
                    out.append(
                        Case(f"{m}/{cell}/{kind}/{k}", "identities", [m, cell, kind, rng.randint(0, 10**9), 3], 1 + (O.TDIM[cell] == 3))
                    )
    # C: functionals of elements on the reference equal those of mapped functions on the cell
    return out


def sym_maps(aff, t):
    import sympy
    from symfem.symbols import x

    fwd = tuple(sum((O.sp(aff.A[i][j]) * x[j] for j in range(t)), O.sp(aff.c[i])) for i in range(t))
    bc = O.matvec(aff.inv, aff.c)
    bwd = tuple(sum((O.sp(aff.inv[i][j]) * x[j] for j in range(t)), sympy.Integer(0)) - O.sp(bc[i]) for i in range(t))
    return fwd, bwd


def identities(ctx, mname, cell, kind, gseed, reps):
    import symfem
    from symfem import mappings

    r = random.Random(gseed)
    t = O.TDIM[cell]
    M = getattr(mappings, mname)
    Minv = getattr(mappings, mname + "_inverse")
    for _ in range(reps):
        A, c, verts = O.rand_affine_cell(r, cell)
        aff = Affine(A, c)
        if r.random() < 0.5:
            fwd, bwd = sym_maps(aff, t)
        else:
            ref = symfem.create_reference(cell)
            vs = tuple(O.spt(v) for v in verts)
            fwd, bwd = ref.get_map_to(vs), ref.get_inverse_map_to(vs)
        F = gen.rand_fun(r, t, kind, 2)
        key = f"{mname}|{cell}|{F.form}"
        at = [O.rand_point_in(r, cell, 30) for _ in range(2)]
        if F.form == "piecewise":  # points where the field is defined
            at = []
            for vs, _ in F.pieces:
                pt = fem.piece_type(vs, t)
                o, axes = O.frame(pt, vs)
                at.append(O.affine_point(o, axes, O.rand_point_in(r, pt, 30)))
        value(ctx, r, mname, M, Minv, F, aff, fwd, bwd, at, t, key)
        if mname in HAS_IT:
            G = gen.rand_fun(r, t, kind, 2, form=r.choice(["raw", "plain", "lazy"]))
            pairing(ctx, mname, M, mappings, F, G, aff, fwd, bwd, at, t, key)
        if F.form != "piecewise":
            moments(ctx, r, mname, M, F, aff, fwd, bwd, cell, verts, t, key)
    ctx.sample({"mapping": mname, "cell": cell, "kind": kind})


def align(F, g):
    """The pieces of g in the order of those of F (both on the reference cell)."""
    if F.form != "piecewise":
        return g
    by = {frozenset(tuple(v) for v in vs): (vs, c) for vs, c in g}
    return [by[frozenset(tuple(v) for v in vs)] for vs, _ in F.pieces]


def value(ctx, r, mname, M, Minv, F, aff, fwd, bwd, at, t, key):
    mapped = M(F.sym, fwd, bwd)
    g = align(F, fem.read(mapped))
    raw = M(F.sym, fwd, bwd, substitute=False)
    h = align(F, fem.read(raw))
    back = align(F, fem.read(Minv(mapped, fwd, bwd)))
    for k, q in enumerate(at):
        i = k if F.form == "piecewise" else 0
        v = fem.value(F.pieces[i][1], q)
        want = aff.push(mname, v)
        p = aff.point(q)
        got = fem.value(g[i][1], p)
        ctx.expect(fem.same_value(got, want), "value", f"{mname}:value", f"{mname} at {q}", got=got, want=want, key=key)
        got = fem.value(h[i][1], q)
        ctx.expect(
            fem.same_value(got, want), "unsubstituted", f"{mname}:substitute=False",
            f"{mname}(substitute=False) at {q}", got=got, want=want, key=key,
        )  # fmt: skip
        got = fem.value(back[i][1], q)
        ctx.expect(
            fem.same_value(got, v), "inverse", f"{mname}_inverse:undo",
            f"{mname}_inverse does not undo {mname} at {q}", got=got, want=v, key=key,
        )  # fmt: skip
    # inverse without substitution: coordinates stay those of the physical cell
    un = align(F, fem.read(Minv(raw, fwd, bwd, substitute=False)))
    for k, q in enumerate(at):
        i = k if F.form == "piecewise" else 0
        ctx.expect(
            fem.same_value(fem.value(un[i][1], q), fem.value(F.pieces[i][1], q)), "inverse unsubstituted",
            f"{mname}_inverse:substitute=False", f"at {q}", key=key,
        )  # fmt: skip


def inner(a, b):
    return sum((O.mul(x, y) for x, y in zip(fem.flatv(a), fem.flatv(b))), O.F0)


def pairing(ctx, mname, M, mappings, F, G, aff, fwd, bwd, at, t, key):
    T = getattr(mappings, mname + "_inverse_transpose")
    f, g = align(F, fem.read(M(F.sym, fwd, bwd))), fem.read(T(G.sym, fwd, bwd))
    f0, g0 = align(F, fem.read(M(F.sym, fwd, bwd, substitute=False))), fem.read(T(G.sym, fwd, bwd, substitute=False))
    for k, q in enumerate(at):
        i = k if F.form == "piecewise" else 0
        want = inner(fem.value(F.pieces[i][1], q), fem.value(G.pieces[0][1], q))
        p = aff.point(q)
        got = inner(fem.value(f[i][1], p), fem.value(g[0][1], p))
        ctx.expect(
            O.close(got, want), "pairing", f"{mname}_inverse_transpose:pairing",
            f"<{mname} f, {mname}_inverse_transpose g> at {q}", got=got, want=want, key=key,
        )  # fmt: skip
        got = inner(fem.value(f0[i][1], q), fem.value(g0[0][1], q))
        ctx.expect(
            O.close(got, want), "pairing unsubstituted", f"{mname}_inverse_transpose:substitute=False",
            f"at {q}", got=got, want=want, key=key,
        )  # fmt: skip


def cut(c, n):
    """Comp in three variables -> Poly in n variables."""
    P = c.P()
    return O.Poly(n, {k[:n]: v for k, v in P.c.items()})


def line(comps, a, b, n):
    """Integral of f . dx along the segment a -> b."""
    d = O.vsub(b, a)
    phys = O.affine_polys(a, [d], 1)
    tot = O.Poly.const(1, O.F0)
    for k in range(n):
        tot = tot + cut(comps[k], n).compose(phys) * d[k]
    return O.integrate_ref(tot, "interval")


def flux(comps, verts, n):
    """Integral of f . n over an affine facet, n oriented by its vertices."""
    o, axes, et = facet(verts, n)
    if n == 2:
        nrm = [-axes[0][1], axes[0][0]]
    else:
        nrm = O.cross(*axes)
    phys = O.affine_polys(o, axes, n - 1)
    tot = O.Poly.const(n - 1, O.F0)
    for k in range(n):
        tot = tot + cut(comps[k], n).compose(phys) * nrm[k]
    return O.integrate_ref(tot, et)


def facet(verts, n):
    et = O.entity_type(n - 1, len(verts))
    o, axes = O.frame(et, verts)
    return o, axes, et


def bilinear(comps, u, v, o, axes, et, n):
    """Integral (in local coordinates) of u^T S v over an affine entity."""
    m = len(axes)
    phys = O.affine_polys(o, axes, m)
    tot = O.Poly.const(m, O.F0)
    for i in range(n):
        for j in range(n):
            tot = tot + cut(comps[i][j], n).compose(phys) * (u[i] * v[j])
    return O.integrate_ref(tot, et)


def moments(ctx, r, mname, M, F, aff, fwd, bwd, cell, verts, t, key):
    ref = F.pieces[0][1]
    phy = fem.read(M(F.sym, fwd, bwd))[0][1]
    RV = O.VERTS[cell]

    def same(what, a, b, ent):
        ctx.expect(
            O.close(a, b), what, f"{mname}:{what}", f"{what} over entity {ent} of the {cell} is not preserved",
            got=b, want=a, key=f"{key}|{what}|{ent}",
        )  # fmt: skip

    if mname == "covariant":
        for n, e in enumerate(O.sub_entities(cell, 1)):
            a, b = e[0], e[-1]
            same("line integral", line(ref, RV[a], RV[b], t), line(phy, verts[a], verts[b], t), (1, n))
        # gradients are mapped to gradients of the composed function
        import symfem

        f = O.rand_poly(r, t, 3, 4)
        g = symfem.functions.ScalarFunction(O.poly_to_sympy(f)).grad(t)
        got = fem.read(M(g, fwd, bwd))[0][1]
        comp = f.compose(O.affine_polys([-v for v in O.matvec(aff.inv, aff.c)], list(zip(*aff.inv)), t))
        p = aff.point(O.rand_point_in(r, cell, 30))
        for i in range(t):
            ctx.expect(
                O.close(got[i].at(p), comp.diff(i)(p)), "gradient", "covariant:gradient",
                f"component {i} of the mapped gradient", key=key,
            )  # fmt: skip
    elif mname == "contravariant":
        for n, e in enumerate(O.sub_entities(cell, t - 1)):
            same("flux", flux(ref, [RV[i] for i in e], t), flux(phy, [verts[i] for i in e], t), (t - 1, n))
        d0 = divergence(ref, t)
        d1 = divergence(phy, t)
        a = O.integrate_ref(d0, cell)
        b = O.integrate_cell(d1, cell, verts)
        same("divergence", a, b if aff.det > 0 else -b, (t, 0))
    elif mname == "l2":
        for a, b in zip(fem.flat(ref), fem.flat(phy)):
            same("integral", O.integrate_ref(cut(a, t), cell), O.integrate_cell(cut(b, t), cell, verts), (t, 0))
    elif mname == "double_covariant":
        for n, e in enumerate(O.sub_entities(cell, 1)):
            a, b = e[0], e[-1]
            d0, d1 = O.vsub(RV[b], RV[a]), O.vsub(verts[b], verts[a])
            same(
                "tangent-tangent", bilinear(ref, d0, d0, RV[a], [d0], "interval", t),
                bilinear(phy, d1, d1, verts[a], [d1], "interval", t), (1, n),
            )  # fmt: skip
    elif mname == "double_contravariant":
        for n, e in enumerate(O.sub_entities(cell, t - 1)):
            vals = []
            for f, V in ((ref, RV), (phy, verts)):
                o, axes, et = facet([V[i] for i in e], t)
                nrm = [-axes[0][1], axes[0][0]] if t == 2 else O.cross(*axes)
                vals.append(bilinear(f, nrm, nrm, o, axes, et, t))
            same("normal-normal", vals[0], vals[1], (t - 1, n))


def divergence(comps, t):
    tot = O.Poly.const(t, O.F0)
    for i in range(t):
        tot = tot + cut(comps[i], t).diff(i)
    return tot


def getters(ctx, gseed):
    """get_mapping hands out the mapping it is asked for and refuses others."""
    from symfem import mappings

    r = random.Random(gseed)
    for name, kinds in MAPS.items():
        for inverse, transpose in ((False, False), (True, False), (True, True)):
            if transpose and name not in HAS_IT:
                try:
                    mappings.get_mapping(name, inverse=True, transpose=True)
                    ok = False
                except ValueError:
                    ok = True
                ctx.expect(ok, "refused", f"get_mapping:{name}", "unknown mapping accepted", key=name)
                continue
            fn = mappings.get_mapping(name, inverse=inverse, transpose=transpose)
            for kind in kinds:
                t = 2
                A, c, _ = O.rand_affine_cell(r, "triangle")
                aff = Affine(A, c)
                fwd, bwd = sym_maps(aff, t)
                F = gen.rand_fun(r, t, kind, 2, form="plain")
                out = fem.read(fn(F.sym, fwd, bwd))[0][1]
                q = O.rand_point_in(r, "triangle", 30)
                p = aff.point(q)
                if inverse and not transpose:  # from the cell to the reference
                    inv = Affine(aff.inv, [-v for v in O.matvec(aff.inv, aff.c)])
                    want = inv.push(name, fem.value(F.pieces[0][1], p))
                    got = fem.value(out, q)
                elif not inverse:
                    want, got = aff.push(name, fem.value(F.pieces[0][1], q)), fem.value(out, p)
                else:
                    v = fem.value(F.pieces[0][1], q)
                    B = {"identity": None, "l2": abs(aff.det)}.get(name, 0)
                    if B is None:
                        want = v
                    elif B:
                        want = scale(B, v)
                    elif name == "covariant":
                        want = O.matvec(A, v)
                    else:
                        want = scale(aff.det, O.matvec(O.transpose(aff.inv), v))
                    got = fem.value(out, p)
                ctx.expect(
                    fem.same_value(got, want), "getter", f"get_mapping:{name}:{inverse}:{transpose}",
                    f"get_mapping({name}, {inverse}, {transpose})", got=got, want=want, key=f"{name}|{inverse}|{transpose}",
                )  # fmt: skip
    for bad in ("", "covarient", "double", "L2", "piola"):
        try:
            mappings.get_mapping(bad)
            ok = False
        except ValueError:
            ok = True
        ctx.expect(ok, "refused", "get_mapping:unknown", f"{bad!r} accepted", key=bad)
