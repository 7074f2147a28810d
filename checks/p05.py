"""P05: map_to_cell returns the push-forward of the basis, DOF by DOF."""

import random

from harness import catalogue, fem
from harness import oracle as O
from harness.core import Case, Skip

PROPERTY = "P05"
TECHNIQUE = "runtime monitor: mapped basis functions compared pointwise with an independent push-forward oracle"
RULE = (
    "One case = one element and some random affine cells (rational, either orientation, embedded "
    "cells for elements that use the identity only), given as tuples, lists or sympy values. Every "
    "function returned by map_to_cell is evaluated exactly at images of random points of the "
    "reference cell (of every piece for macro elements) and compared with the push-forward, by the "
    "DOF's mapping, of the reference value; explicit bases, explicit maps, repeated calls and "
    "unchanged arguments are checked on the same element. Distinct = element x cell drawn x mode."
)
ASSUMPTIONS = [
    "the mapping of each DOF is compared with the one its family needs; for Huang-Zhang and enriched vector Galerkin, which mix mappings, dof.mapping is taken at its word",
    "cells are affine images of the reference cell",
]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 500}
FLOOR = 1500


def cases(tier, seed):
    quick = tier == "quick"
    items = catalogue.select(2.5 if quick else 40, pred=lambda c, n, k, o, kind: "dual" not in c)
    items = catalogue.thin(items, 50 if quick else 1200, seed, factor=3 if quick else 8)
    items += catalogue.kept(7 if quick else 60, items)
    rng = random.Random(f"p05/{seed}")
    out = []
    for lb, cell, name, kw, order, cost, dim in items:
        n = (2 if cost < 0.2 else 1) if quick else 4
        out.append(Case(f"map/{lb}", "mapped", [cell, name, kw, order, n, rng.randint(0, 10**9)], cost * (n + 1), 4))
    for (cell, name), todo in sorted(declared_items().items()):
        out.append(Case(f"declared/{cell}/{name}", "declared", [cell, name, todo], 2, 4))
    for cell, gdim in [("interval", 2), ("interval", 3), ("quadrilateral", 3)]:
        for name in ("P", "Q", "dPc", "Hermite" if cell == "interval" else "serendipity"):
            for order in (1, 2, 3):
                out.append(Case(f"embedded/{cell}{gdim}/{name}/{order}", "embedded", [cell, name, order, gdim, rng.randint(0, 10**9)]))
    return out


# -- the mapping each family needs ------------------------------------------------------------------
FAMILY_MAPPING = {
    **dict.fromkeys(
        ["Nedelec", "Nedelec1", "Nedelec2", "Qcurl", "Scurl", "TNTcurl", "TScurl"], "covariant",
    ),
    **dict.fromkeys(
        ["ABF", "AC", "BDDF", "BDFM", "BDM", "Qdiv", "RT", "Sdiv", "TNTdiv", "TSdiv", "MTW", "Bernardi-Raugel", "Guzman-Neilan"],
        "contravariant",
    ),
    **dict.fromkeys(["AW", "nonconforming AW", "HHJ"], "double_contravariant"),
    "Regge": "double_covariant",
}  # fmt: skip
MIXED = {"HZ", "LFEG"}  # declared as a mixture by design; the value check takes them at their word


def declared_items():
    """Every (cell, family) with the orders at which an element can be created in reasonable time."""
    out = {}
    for lb, cell, name, kw, order, cost, dim in catalogue.select(10**9, pred=lambda c, n, k, o, kind: "dual" not in c):
        v = kw.get("variant", "equispaced")
        out.setdefault((cell, name), set()).add((order, v))
    res = {}
    for k, s in out.items():
        top = max(o for o, _ in s)
        vs = sorted({v for _, v in s})
        res[k] = [[o, v] for o, v in sorted(s)] + [[top + 1, v] for v in vs[:1]]
    return res


def declared(ctx, cell, name, todo):
    import symfem

    import time

    want = FAMILY_MAPPING.get(name, "identity")
    end = time.time() + (2.5 if ctx.tier == "quick" else 60)
    for order, v in todo:
        if time.time() > end:
            break
        try:
            kw = {} if v == "equispaced" else {"variant": v}
            el = symfem.create_element(cell, name, order, **kw)
        except (ValueError, NotImplementedError, AssertionError, KeyError, TypeError):
            continue  # creation is judged by P20
        dofs = subdofs(el)
        if dofs is None or name in MIXED:
            continue
        for i, d in enumerate(dofs):
            m = d.mapping
            ctx.expect(
                m in (want, None) or (want == "identity" and m is None), "declared mapping", f"declared:{cell}/{name}",
                f"order {order} variant {v}: DOF {i} ({type(d).__name__} on {d.entity}) is mapped by {m}, the family by {want}",
                key=f"{cell}|{name}|{order}|{m}|{d.entity_dim()}",
            )  # fmt: skip


# -- the push-forward -----------------------------------------------------------------------------
def scale(a, v):
    if isinstance(v, list):
        return [scale(a, i) for i in v]
    return O.mul(a, v)


def mm(A, B):
    return [[O.dotp(r, c) for c in zip(*B)] for r in A]


class Affine:
    def __init__(self, A, c):
        self.A, self.c = A, c
        self.det = O.det(A)
        self.inv = O.matinv(A)

    def point(self, q):
        return O.vadd(O.matvec(self.A, q), self.c)

    def push(self, mapping, v):
        A, B = self.A, self.inv
        if mapping == "identity":
            return v
        if mapping == "l2":
            return scale(1 / abs(self.det), v)
        if mapping == "covariant":
            return O.matvec(O.transpose(B), v)
        if mapping == "contravariant":
            return scale(1 / self.det, O.matvec(A, v))
        if mapping == "double_covariant":
            return mm(mm(O.transpose(B), v), B)
        if mapping == "double_contravariant":
            return scale(1 / self.det**2, mm(mm(A, v), O.transpose(A)))
        raise fem.OutOfModel(f"mapping {mapping}")


def vdim(v):
    return len(v) if isinstance(v, list) else 0


def subdofs(el):
    """DOF list with the mapping of each, in order (None where the element has no functionals)."""
    if hasattr(el, "dofs"):
        return list(el.dofs)
    if hasattr(el, "_subelements"):
        out = []
        for e in el._subelements:
            s = subdofs(e)
            if s is None:
                return None
            out += s
        return out
    return None


def form(r, verts):
    """One of the ways a user writes vertices."""
    import sympy

    k = r.randrange(4)
    pts = [O.spt(v) for v in verts]
    if k == 0:
        return tuple(pts)
    if k == 1:
        return [list(p) for p in pts]
    if k == 2:
        return [sympy.Matrix(p) for p in pts] if len(verts[0]) > 1 else tuple(pts)
    return tuple(tuple(int(c) if c == int(c) else c for c in p) for p in pts)


def ref_points(r, f, cell, t, n):
    """Random interior points of the reference cell: in every piece of a piecewise function."""
    if f[0][0] is None:
        return [(None, O.rand_point_in(r, cell, 30)) for _ in range(n)]
    out = []
    for k, (vs, _) in enumerate(f):
        pt = fem.piece_type(vs, t)
        o, axes = O.frame(pt, vs)
        out.append((k, O.affine_point(o, axes, O.rand_point_in(r, pt, 30))))
    return out


def compare(ctx, tag, what, el, dofs, basis, got, aff, cell, r, n):
    """got[i] must be the push-forward of basis[i] by the mapping of DOF i."""
    t = O.TDIM[cell]
    if not ctx.expect(len(got) == len(basis), "count", f"count:{tag}", f"{what}: {len(got)} functions for {len(basis)} DOFs"):
        return False
    order = list(range(len(basis)))
    if len(order) > 24:
        r.shuffle(order)
        order = sorted(order[:24])
    for i in order:
        f, g = basis[i], fem.read(got[i])
        if (f[0][0] is None) != (g[0][0] is None):
            return ctx.expect(False, "kind", f"value:{tag}", f"{what}: DOF {i}: piecewise on one cell only")
        if f[0][0] is not None:
            want = sorted(sorted(tuple(aff.point(v)) for v in vs) for vs, _ in f)
            have = sorted(sorted(tuple(v) for v in vs) for vs, _ in g)
            if not ctx.expect(
                want == have,
                "pieces",
                f"pieces:{tag}",
                f"{what}: DOF {i}: pieces are not the images of the reference pieces",
                got=have,
                want=want,
            ):
                return False
        for k, q in ref_points(r, f, cell, t, n):
            try:
                v = fem.value(f[0 if k is None else k][1], q)
                want = aff.push(dofs[i].mapping, v)
                p = aff.point(q)
                have = fem.values_at(g, p, t)
            except fem.OutOfModel as e:
                ctx.skip(str(e))
                continue
            if not ctx.expect(
                len(have) == 1 and fem.same_value(have[0], want), "value", f"value:{tag}",
                f"{what}: DOF {i} ({dofs[i].mapping}) at the image of {q}", got=have, want=want,
                key=f"{tag}|{what}|{dofs[i].mapping}|{k}",
            ):  # fmt: skip
                return False
    return True


def snapshot(vs):
    return repr([[str(c) for c in v] for v in vs])


def mapped(ctx, cell, name, kw, order, ncells, gseed):
    import sympy
    import symfem
    from symfem.mappings import MappingNotImplemented
    from symfem.symbols import x

    tag = catalogue.label(cell, name, kw, order)
    r = random.Random(gseed)
    el = symfem.create_element(cell, name, order, **kw)
    t = O.TDIM[cell]
    dofs = subdofs(el)
    first = None
    for k in range(ncells):
        A, c, verts = O.rand_affine_cell(r, cell)
        aff = Affine(A, c)
        vin = form(r, verts)
        before = snapshot(vin)
        try:
            got = el.map_to_cell(vin)
        except MappingNotImplemented:
            ctx.seen("refused: no mapping", tag)
            if dofs is not None:
                ctx.expect(
                    any(d.mapping is None for d in dofs) or not direct_ok(name, cell), "refusal",
                    f"refusal:{tag}", "map_to_cell refused although every DOF has a mapping",
                )  # fmt: skip
            raise Skip("mapping not implemented")
        except NotImplementedError as e:
            ctx.seen("refused: other cells", f"{tag}|{type(e).__name__}")
            ctx.expect(
                dofs is not None and any(unmapped(d) for d in dofs), "refusal", f"refusal:{tag}",
                f"map_to_cell raised {type(e).__name__} although every DOF has a mapping",
            )  # fmt: skip
            raise Skip("no element on other cells")
        ctx.expect(snapshot(vin) == before, "arguments", f"arguments:{tag}", "the vertices passed in were changed")
        basis = [fem.read(f) for f in el.get_basis_functions()]
        if first is None:
            first = basis
        else:
            ctx.expect(
                [repr([(vs, fem._m(cs, str_comp)) for vs, cs in f]) for f in first]
                == [repr([(vs, fem._m(cs, str_comp)) for vs, cs in f]) for f in basis],
                "element unchanged", f"mutated:{tag}", "the element's basis functions changed by mapping them",
            )  # fmt: skip
        if dofs is None:
            raise Skip("no DOFs")
        if any(unmapped(d) for d in dofs):
            # no mapping: the basis of the element created on that cell
            own = symfem.create_element(cell, name, order, vertices=tuple(O.spt(v) for v in verts), **kw)
            same(ctx, tag, "unmapped", [fem.read(f) for f in own.get_basis_functions()], got, cell, verts, r)
            continue
        if not compare(ctx, tag, "map", el, dofs, basis, got, aff, cell, r, 2):
            return
        if k:
            continue
        # again, with the maps supplied by the caller
        fwd = [sum((O.sp(A[i][j]) * x[j] for j in range(t)), O.sp(c[i])) for i in range(t)]
        sh = [x[j] - O.sp(c[j]) for j in range(t)]
        bwd = [sum((O.sp(aff.inv[i][j]) * sh[j] for j in range(t)), sympy.Integer(0)) for i in range(t)]
        mode = r.choice(["both", "forward", "inverse"])
        args = {}
        if mode != "inverse":
            args["forward_map"] = tuple(fwd)
        if mode != "forward":
            args["inverse_map"] = tuple(bwd)
        again = el.map_to_cell(tuple(O.spt(v) for v in verts), **args)
        if not compare(ctx, tag, f"maps:{mode}", el, dofs, basis, again, aff, cell, r, 1):
            return
        # an explicit basis
        own = el.get_basis_functions()
        perm = list(range(len(own)))
        groups = {}
        for i, d in enumerate(dofs):
            groups.setdefault(d.mapping, []).append(i)
        for g in groups.values():  # functions of one mapping may be exchanged
            h = list(g)
            r.shuffle(h)
            for i, j in zip(g, h):
                perm[i] = j
        mult = [r.choice([1, 1, 2, -3]) for _ in own]
        mine = [
            (m * own[j].get_function() if hasattr(own[j], "get_function") else m * own[j]) if m != 1 else own[j] for m, j in zip(mult, perm)
        ]
        held = list(mine)
        want = [[(vs, fem._m(cs, lambda c, m=m: mulc(c, m))) for vs, cs in basis[j]] for m, j in zip(mult, perm)]
        out = el.map_to_cell(vin, basis=mine)
        if not compare(ctx, tag, "basis", el, dofs, want, out, aff, cell, r, 1):
            return
        ctx.expect(
            len(mine) == len(held) and all(a is b for a, b in zip(mine, held)), "arguments", f"arguments:{tag}",
            "the basis list passed in was changed",
        )  # fmt: skip
        kept = [[(vs, fem._m(cs, str_comp)) for vs, cs in fem.read(f)] for f in held]
        ctx.expect(
            all(
                len(a) == len(b)
                and [x0 for x0, _ in a] == [y0 for y0, _ in b]
                and all(close_comps(fa, fb, r, cell) for (_, fa), (_, fb) in zip([(None, f[0][1])], [(None, w[0][1])]))
                for a, b, f, w in zip(kept, [[(vs, 0) for vs, _ in w] for w in want], [fem.read(f) for f in held], want)
            ),
            "arguments", f"arguments:{tag}", "the functions passed in were changed",
        )  # fmt: skip
        if hasattr(el, "reference"):
            ctx.expect(
                [tuple(O.num(c) for c in v) for v in el.reference.vertices] == [tuple(v) for v in O.VERTS[cell]],
                "element unchanged", f"mutated:{tag}", "the element's reference changed",
            )  # fmt: skip
    ctx.sample({"config": tag, "mappings": sorted({str(d.mapping) for d in dofs or []})})


def direct_ok(name, cell):
    return True


def close_comps(a, b, r, cell):
    p = O.rand_point_in(r, cell, 30)
    try:
        return fem.same_value(fem.value(a, p), fem.value(b, p))
    except fem.OutOfModel:
        return True


def str_comp(c):
    return str(c.expr)


def mulc(c, m):
    if c.poly is not None:
        return fem.Comp(c.poly * m if m != 1 else c.poly, c.names)
    return fem.Comp(c.expr * m, c.names)


def unmapped(d):
    """DOFs whose class documents that no mapping exists."""
    return d.mapping is None or type(d).__name__ in (
        "PointDirectionalDerivativeEvaluation", "PointNormalDerivativeEvaluation",
        "DerivativePointEvaluation", "IntegralOfDirectionalMultiderivative",
    ) and not maps(d)  # fmt: skip


def maps(d):
    from symfem.mappings import MappingNotImplemented
    from symfem.symbols import x

    t = d.reference.tdim
    try:
        d.perform_mapping([__import__("symfem").functions.ScalarFunction(1)], tuple(x[:t]), tuple(x[:t]))
        return True
    except MappingNotImplemented:
        return False


def same(ctx, tag, what, want, got, cell, verts, r):
    t = O.TDIM[cell]
    o, axes = O.frame(cell, verts)
    if not ctx.expect(len(got) == len(want), "count", f"count:{tag}", f"{what}: {len(got)} functions, {len(want)} expected"):
        return
    for i, (w, g) in enumerate(zip(want, got)):
        g = fem.read(g)
        for _ in range(2):
            p = O.affine_point(o, axes, O.rand_point_in(r, cell, 30))
            try:
                a, b = fem.values_at(w, p, t), fem.values_at(g, p, t)
            except fem.OutOfModel as e:
                ctx.skip(str(e))
                continue
            if not ctx.expect(
                fem.same_value(a[:1], b[:1]), "value on own cell", f"value:{tag}",
                f"{what}: DOF {i} differs from the element created on the cell", got=b, want=a, key=f"{tag}|{what}",
            ):  # fmt: skip
                return


def embedded(ctx, cell, name, order, gdim, gseed):
    """Scalar elements mapped to cells embedded in a higher dimension."""
    import symfem

    t = O.TDIM[cell]
    r = random.Random(gseed)
    try:
        el = symfem.create_element(cell, name, order)
    except ValueError:
        raise Skip("no such element")
    if any(d.mapping != "identity" for d in el.dofs) or any(unmapped(d) for d in el.dofs):
        raise Skip("not the identity mapping")
    tag = catalogue.label(cell, name, {}, order)
    basis = [fem.read(f) for f in el.get_basis_functions()]
    for _ in range(2):
        while True:
            axes = [[O.rand_frac(r, -3, 3) for _ in range(gdim)] for _ in range(t)]
            if O.rref_rank(axes) == t:
                break
        o = [O.rand_frac(r, -3, 3) for _ in range(gdim)]
        verts = [O.affine_point(o, axes, v) for v in O.VERTS[cell]]
        try:
            got = el.map_to_cell(tuple(O.spt(v) for v in verts))
        except NotImplementedError:
            raise Skip("embedded cells refused")
        for i, f in enumerate(got):
            g = fem.read(f)
            q = O.rand_point_in(r, cell, 30)
            have = fem.value(g[0][1], O.affine_point(o, axes, q))
            want = fem.value(basis[i][0][1], q)
            if not ctx.expect(
                fem.same_value(have, want), "embedded value", f"embedded:{cell}{gdim}:{name}",
                f"{tag} on a cell in {gdim}D: DOF {i}", got=have, want=want, key=f"{cell}{gdim}|{name}|{order}",
            ):  # fmt: skip
                return
