"""P20: create_element accepts exactly the documented configurations and what it accepts works."""

import inspect
import json
import os
import random
import re
import time

import sympy

from harness import catalogue as C
from harness import fem
from harness import oracle as O
from harness.core import REPO, Case, Skip
from harness.fork import fresh_run

PROPERTY = "P20"
TECHNIQUE = (
    "runtime monitor of create_element, create_reference and add_element calls: valid, invalid and hostile, against the documented table"
)
RULE = (
    "One case = one row of the documented table (cell, family: names, lowest and highest order), one configuration of the "
    "catalogue, or one history of registrations. The monitor creates the element under every name, at the limits and beyond them, "
    "with unknown cells, names and cells a family does not support; computes everything the element promises; rebuilds it from "
    "init_kwargs; and registers user classes in fresh processes. Distinct = call x outcome."
)
ASSUMPTIONS = [
    "the documented table is the list of elements in README.md and the order limits of the pinned commit (harness/ranges.json)",
    "keyword values a family does not know may be refused with any exception",
]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 400}
FLOOR = 5000

ENUMERATED = ("dual polygon(4)", "dual polygon(3)", "dual polygon(6)")


def table():
    with open(os.path.join(os.path.dirname(C.__file__), "ranges.json")) as f:
        return json.load(f)


# creation itself takes long
SLOW = {("Bernstein", "tetrahedron"): 3, ("Bernstein", "triangle"): 3, ("Bernstein", "interval"): 4}
# which orders of the kinds with gaps are defined
GAPS = {"KMV": {"triangle": {1, 2, 3}, "tetrahedron": {1, 2}}}
EXTRA = [
    # configurations beyond the tests: every one of them is accepted by create_element
    *[("triangle", "CR", {}, k) for k in (2, 3, 4, 5, 6)],
    *[(c, n, {"variant": v}, k) for c in ("interval", "triangle") for n in ("vP",) for v in ("legendre",) for k in (1, 2)],
    *[("triangle", n, {"variant": "legendre"}, k) for n in ("matrix Lagrange", "symmetric matrix Lagrange") for k in (1, 2)],
    *[
        ("quadrilateral", "vQ", {"variant": v}, k)
        for v, k in (("legendre", 1), ("legendre", 2), ("lobatto", 1), ("lobatto", 2), ("lobatto", 3))
    ],
]


def cases(tier, seed):
    quick = tier == "quick"
    rng = random.Random(f"p20/{seed}")
    out = []
    for n, (cell, names, lo, hi) in enumerate(table()):
        out.append(Case(f"row/{cell}/{names[0]}", "row", [n], 1.5, 6))
    out.append(Case("registry", "registry", [], 2, 7))
    out.append(Case("cells", "cells", [], 1, 7))
    out.append(Case("unknown", "unknown", [rng.randint(0, 10**9), 120 if quick else 1500], 2, 7))
    for k in range(6 if quick else 40):
        out.append(Case(f"register/{k}", "register", [rng.randint(0, 10**9)], 3, 6))
    items = C.select(2.5 if quick else 40)
    items = C.thin(items, 20 if quick else 500, seed, factor=3)
    for it in items:
        out.append(Case(f"works/{it[0]}", "works", [it[1], it[2], it[3], it[4]], it[5] * 3 + 0.2))
    have = {it[0] for it in items}
    for cell, name, kw, order in EXTRA:
        if C.label(cell, name, kw, order) not in have:
            out.append(Case(f"works/{C.label(cell, name, kw, order)}", "works", [cell, name, kw, order], 1))
    return out


def refused(ctx, kind, mech, what, fn, exc=ValueError, key=None):
    """fn() must raise exc."""
    try:
        got = fn()
    except exc:
        return ctx.expect(True, kind, mech, what, key=key)
    except Exception as e:  # noqa: BLE001
        return ctx.expect(False, kind, mech, f"{what}: {type(e).__name__}({str(e)[:80]}) instead of {exc.__name__}", key=key)
    return ctx.expect(False, kind, mech, f"{what}: accepted ({type(got).__name__})", key=key)


def kwargs_for(cell, name, order):
    if name == "transition":
        return {
            "edge_orders": [order] * (3 if cell == "triangle" else 6),
            **({"face_orders": [order] * 4} if cell == "tetrahedron" else {}),
        }
    return {}


def look(el):
    """What identifies an element, cheap to compute."""
    out = [type(el).__name__, type(el).__module__, el.order, el.space_dim, el.reference.name, str(el.reference.vertices)]
    out.append([tuple(e) for e in el.dof_entities()])
    if hasattr(el, "dofs"):
        out.append([(type(d).__name__, d.mapping, d.get_tex()[0]) for d in el.dofs])
    return out


def row(ctx, n):
    """Every name at the lowest order; the limits; the cells the family does not support."""
    import symfem

    cell, names, lo, hi = table()[n]
    call = cell if cell != "dual polygon" else ENUMERATED[n % 3]
    tag = f"{cell}/{names[0]}"
    first = None
    for name in names:
        try:
            el = symfem.create_element(call, name, lo, **kwargs_for(cell, name, lo))
        except Exception as e:  # noqa: BLE001
            ctx.expect(
                False, "accepted", f"accepted:{tag}", f"create_element({call!r}, {name!r}, {lo}) raised {type(e).__name__}({str(e)[:80]})",
                key=f"{tag}|{name}|{lo}",
            )  # fmt: skip
            continue
        ctx.expect(
            el.reference.name == cell and el.order == lo, "accepted", f"request:{tag}",
            f"create_element({call!r}, {name!r}, {lo}) made an element of order {el.order} on a {el.reference.name}", key=f"{tag}|{name}",
        )  # fmt: skip
        ctx.expect(
            name in el.names and el.name == el.names[0] and cell in el.references, "accepted", f"names:{tag}",
            f"the element made for {name!r} on a {cell} does not carry that name and cell", key=f"{tag}|{name}",
        )  # fmt: skip
        lk = look(el)
        if first is None:
            first = lk
        ctx.expect(lk == first, "aliases", f"aliases:{tag}", f"{name!r} and {names[0]!r} are different elements", key=f"{tag}|{name}")
    name = names[-1]
    # other orders that must be accepted (creation only)
    top = SLOW.get((names[0], cell), 4 if cell in ("tetrahedron", "hexahedron", "prism", "pyramid") else 6)
    top += 0 if ctx.tier == "quick" else 3
    took = 0.0
    gaps = next((g[cell] for k, g in GAPS.items() if k in names), None)
    for k in range(lo + 1, (hi if hi is not None else max(lo + 1, top)) + 1):
        if gaps is not None and k not in gaps:
            continue
        if took > (2 if ctx.tier == "quick" else 20):
            break
        start = time.time()
        try:
            el = symfem.create_element(call, name, k, **kwargs_for(cell, name, k))
        except Exception as e:  # noqa: BLE001
            took = time.time() - start
            ctx.expect(
                False, "accepted", f"order:{tag}:{k}", f"create_element({call!r}, {name!r}, {k}) raised {type(e).__name__}({str(e)[:80]})",
                key=f"{tag}|{k}",
            )  # fmt: skip
            continue
        took = time.time() - start
        ctx.expect(
            el.order == k and el.reference.name == cell and len(el.dof_entities()) == el.space_dim, "accepted", f"request:{tag}",
            f"create_element({call!r}, {name!r}, {k}) made an element of order {el.order}", key=f"{tag}|{k}",
        )  # fmt: skip
    bad = [lo - 1, lo - 2, -1, -100] + ([hi + 1, hi + 2, hi + 50] if hi is not None else [])
    for k in sorted({b for b in bad if b < lo or (hi is not None and b > hi)}):
        refused(
            ctx, "order", f"limits:{tag}", f"order {k} (allowed: {lo} to {hi})",
            lambda: symfem.create_element(call, name, k, **kwargs_for(cell, name, k)), key=f"{tag}|{k}",
        )  # fmt: skip


def readme():
    """{cell: [names per element]} as the README lists them."""
    out, cell = {}, None
    path = os.path.join(REPO, "README.md")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        for line in f:
            m = re.match(r"## (.+)$", line.strip())
            if m:
                cell = m.group(1).lower()
            m = re.match(r"- (.+?)(?: \(alternative names: (.+)\))?$", line.strip())
            if m and cell is not None:
                out.setdefault(cell, []).append([m.group(1)] + (m.group(2).split(", ") if m.group(2) else []))
    return {c: v for c, v in out.items() if c in {r[0] for r in table()}}


def registry(ctx):
    """Every documented name works on exactly the documented cells."""
    import symfem

    rows = table()
    cells = sorted({r[0] for r in rows})
    allnames = sorted({n for r in rows for n in r[1]})
    for cell, groups in readme().items():
        for g in groups:
            ctx.expect(
                any(r[0] == cell and set(g) <= set(r[1]) for r in rows), "documented", "documented:table",
                f"README lists {g} on a {cell}, the table does not", key=f"{cell}|{g[0]}",
            )  # fmt: skip
    where = {(r[0], n): r for r in rows for n in r[1]}
    for n in allnames:
        for cell in cells:
            call = cell if cell != "dual polygon" else "dual polygon(4)"
            if (cell, n) in where:
                continue
            for order in (0, 1, 2, 3):
                refused(
                    ctx, "cell", f"unsupported:{cell}", f"{n!r} on a {cell}", lambda: symfem.create_element(call, n, order),
                    key=f"{cell}|{n}|{order}",
                )  # fmt: skip
        refused(ctx, "cell", "unsupported:point", f"{n!r} on a point", lambda: symfem.create_element("point", n, 1), key=f"point|{n}")
    # the docstring
    doc = symfem.create_element.__doc__ or ""
    m = re.search(r"element_type:.*?Supported values:(.*?)order:", doc, re.S)
    if m:
        for n in re.sub(r"\s+", " ", m.group(1)).split(", "):
            n = n.strip(" ,.")
            if n:
                ctx.expect(n in allnames, "documented", "documented:docstring", f"the docstring lists {n!r}", key=n)
    for n, cell in [("Lagrange", "triangle"), ("RT", "tetrahedron"), ("Q", "hexahedron")]:
        t = O.TDIM[cell]
        low = tuple(tuple(sympy.Integer(c) for c in v) + (sympy.Integer(0),) for v in O.VERTS[cell])
        if t < 3:
            refused(
                ctx, "dimension", "dimension", f"{n} on a {cell} embedded in more dimensions",
                lambda: symfem.create_element(cell, n, 1, vertices=low), key=f"{cell}|{n}",
            )  # fmt: skip


HOSTILE = [
    "", " ", "Triangle", "TRIANGLE", " triangle", "triangle ", "triangles", "tri", "simplex", "square", "quad", "cube", "hex", "tet",
    "line", "wedge", "polygon", "None", "point(3)", "triangle(3)", "dual", "dual polygon", "dual polygon()", "dual polygon(x)",
    "dual  polygon(4)", "Dual polygon(4)", "dual polygon(3.5)", "triangle\n", "interval\t", "__class__", "0", "3", "dual polygon[4]",
    "dual polygon 4",
]  # fmt: skip


def cells(ctx):
    import symfem

    for c in HOSTILE:
        refused(ctx, "unknown cell", "unknown-cell:reference", f"create_reference({c!r})", lambda: symfem.create_reference(c), key=c)
        refused(
            ctx,
            "unknown cell",
            "unknown-cell:element",
            f"create_element({c!r}, 'Lagrange', 1)",
            lambda: symfem.create_element(c, "Lagrange", 1),
            key=f"e{c}",
        )
    for c in ("point", "interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"):
        ref = symfem.create_reference(c)
        nv = 1 if c == "point" else len(O.VERTS[c])
        ctx.expect(ref.name == c and len(ref.vertices) == nv, "reference", f"reference:{c}", "wrong cell created", got=ref.name, key=c)
        ctx.expect(ref == symfem.create_reference(c), "reference", f"reference:{c}", "two references of one cell differ", key=c + "=")
    for n in (2, 3, 4, 5, 6, 12):
        ref = symfem.create_reference(f"dual polygon({n})")
        ctx.expect(
            ref.name == "dual polygon" and len(ref.vertices) == 2 * n and ref.number_of_triangles == n, "reference",
            "reference:dual polygon", f"dual polygon({n}) has {len(ref.vertices)} vertices", key=str(n),
        )  # fmt: skip


def unknown(ctx, seed, count):
    """Names that nobody registered, made from registered ones."""
    import symfem

    r = random.Random(seed)
    names = sorted({n for row in table() for n in row[1]})
    known = set(names)
    done = 0
    while done < count:
        n = r.choice(names)
        k = r.randrange(9)
        if k == 0:
            n = n.lower()
        elif k == 1:
            n = n.upper()
        elif k == 2:
            n = r.choice([" ", "\t", "\n", "_"]) + n
        elif k == 3:
            n += r.choice([" ", "1", "2", "-", "\n", "s"])
        elif k == 4:
            i = r.randrange(len(n))
            n = n[:i] + n[i + 1 :]
        elif k == 5:
            n = n.replace(" ", "-") if " " in n else n + " element"
        elif k == 6:
            i = r.randrange(len(n) + 1)
            n = n[:i] + r.choice("abcxyzABC123 .*%") + n[i:]
        elif k == 7:
            n = n + " " + r.choice(names)
        else:
            n = r.choice(
                ["", "None", "names", "__init__", "FiniteElement", "CiarletElement", "DirectElement", "Enrichment", "unknown", "*", "?"]
            )
        done += 1
        if n in known:
            continue
        cell = r.choice(
            ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid", "dual polygon(4)", "point"]
        )
        order = r.choice([0, 1, 2, 3, -1])
        refused(
            ctx, "unknown name", "unknown-name", f"create_element({cell!r}, {n!r}, {order})",
            lambda: symfem.create_element(cell, n, order), key=f"{cell}|{n}",
        )  # fmt: skip


def works(ctx, cell, name, kw, order):
    """Everything an accepted element promises."""
    import symfem

    tag = C.label(cell, name, kw, order)
    el = symfem.create_element(cell, name, order, **kw)
    try:
        basis = el.get_basis_functions()
    except fem.OutOfModel:
        raise
    except Exception as e:  # noqa: BLE001
        ctx.expect(False, "works", f"works:{tag}", f"get_basis_functions raised {type(e).__name__}({str(e)[:80]})", key=tag)
        return
    n = el.space_dim
    ctx.expect(len(basis) == n, "works", f"count:{tag}", "number of basis functions", got=len(basis), want=n, key=tag)
    pieces = [fem.read(f) for f in basis]
    # value type and shapes
    vt = str(el.value_type)
    shp = fem.shape(pieces[0][0][1])
    ctx.expect(
        all(fem.shape(c) == shp for f in pieces for _, c in f), "shape", f"shape:{tag}", "basis functions have different shapes", key=tag
    )
    size = 1
    for s in shp:
        size *= s
    ctx.expect(
        el.range_dim == size, "shape", f"range:{tag}", "range_dim is not the number of components", got=el.range_dim, want=size, key=tag
    )
    if len(shp) == 2:
        ctx.expect(
            tuple(el.range_shape or ()) == tuple(shp),
            "shape",
            f"range:{tag}",
            "range_shape wrong",
            got=el.range_shape,
            want=shp,
            key=tag + "|m",
        )
    word = {0: "scalar", 1: "vector", 2: "matrix"}[len(shp)]
    if word == "scalar" and el.reference.tdim == 1 and "vector" in vt.split():
        word = "vector"  # on an interval a vector is a scalar
    ctx.expect(
        word in vt.split() and not any(w in vt.split() for w in ("scalar", "vector", "matrix") if w != word), "value type",
        f"value_type:{tag}", f"value_type is {vt!r}, the functions have shape {shp}", key=tag,
    )  # fmt: skip
    macro = any(f[0][0] is not None for f in pieces)
    ctx.expect(
        ("macro" in vt.split() or "dual" in vt.split()) == macro or name in ("Alfeld-Sorokina", "Guzman-Neilan", "Bernardi-Raugel"),
        "value type", f"value_type:{tag}", f"value_type is {vt!r}, piecewise functions: {macro}", key=tag + "|p",
    )  # fmt: skip
    if "symmetric" in vt.split():
        for i, f in enumerate(pieces[:12]):
            for vs, c in f:
                p = [O.F1 / 3, O.F1 / 5, O.F1 / 7]
                v = fem.value(c, p[: el.reference.tdim])
                ctx.expect(
                    all(O.close(v[a][b], v[b][a]) for a in range(len(v)) for b in range(len(v))), "value type", f"symmetric:{tag}",
                    f"basis function {i} is not symmetric", key=f"{tag}|{i}",
                )  # fmt: skip
    ctx.expect(el.domain_dim == el.reference.tdim, "shape", f"domain:{tag}", "domain_dim is not the dimension of the cell", key=tag)
    ctx.expect(el.order == order and name in el.names, "works", f"order:{tag}", "order or name differ from the request", key=tag)
    cont = el.continuity
    ctx.expect(
        cont in ("L2", "C0", "C1", "C2", "H(div)", "H(curl)", "inner H(div)", "inner H(curl)", "integral inner H(div)", "C{order}"),
        "works", f"continuity:{tag}", f"continuity {cont!r} is none of the documented kinds", key=tag,
    )  # fmt: skip
    degs = {}
    for a in ("lagrange_subdegree", "lagrange_superdegree", "polynomial_subdegree", "polynomial_superdegree"):
        try:
            d = getattr(el, a)
        except NotImplementedError:
            continue
        degs[a] = d
        ctx.expect(
            d is None or (isinstance(d, int) and d >= -1), "works", f"degree:{tag}", f"{a} is {d!r}", key=f"{tag}|{a}",
        )  # fmt: skip
    for fam in ("lagrange", "polynomial"):
        lo, hi = degs.get(f"{fam}_subdegree"), degs.get(f"{fam}_superdegree")
        if lo is not None and hi is not None:
            ctx.expect(lo <= hi, "works", f"degree:{tag}", f"{fam} subdegree {lo} exceeds superdegree {hi}", key=f"{tag}|{fam}")
    try:
        md = el.maximum_degree  # its value is P03's business
        ctx.expect(isinstance(md, int), "works", f"maximum_degree:{tag}", f"maximum_degree is {md!r}", key=tag)
    except NotImplementedError:
        ctx.seen("no maximum degree", tag)
    # rebuild
    again_kw = el.init_kwargs()
    if not ctx.expect(isinstance(again_kw, dict), "round trip", f"init_kwargs:{tag}", "init_kwargs is no dictionary", key=tag):
        return
    for k, v in kw.items():
        ctx.expect(
            k in again_kw and again_kw[k] == v,
            "round trip",
            f"init_kwargs:{tag}",
            f"init_kwargs lost {k}={v!r}",
            got=again_kw,
            key=f"{tag}|{k}",
        )
    sig = inspect.signature(type(el).__init__).parameters
    if name == "transition" or not kw:  # what was left out has its default value
        for k, p in sig.items():
            if k in ("self", "reference", "order") or p.default is inspect._empty or k in kw:
                continue
            ctx.expect(
                k in again_kw, "round trip", f"init_kwargs:{tag}", f"init_kwargs does not mention {k}", got=again_kw, key=f"{tag}|d{k}"
            )
    try:
        other = symfem.create_element(cell, name, order, **again_kw)
    except Exception as e:  # noqa: BLE001
        ctx.expect(
            False, "round trip", f"rebuild:{tag}", f"init_kwargs do not rebuild the element: {type(e).__name__}({str(e)[:80]})", key=tag
        )
        return
    ctx.expect(look(other) == look(el), "round trip", f"rebuild:{tag}", "the element rebuilt from init_kwargs is another one", key=tag)
    if el.space_dim < 40 and not macro:
        a = [str(f) for f in el.get_basis_functions()]
        b = [str(f) for f in other.get_basis_functions()]
        if a != b:
            pts = O.rand_point_in(ctx.rng, el.reference.name, 20) if "dual" not in cell else None
            if pts is not None:
                same = all(
                    fem.same_value(fem.value(p[0][1], pts), fem.value(fem.read(f)[0][1], pts))
                    for p, f in zip(pieces, other.get_basis_functions())
                )
                ctx.expect(same, "round trip", f"rebuild:{tag}", "the rebuilt element has other basis functions", key=tag + "|b")
    # a keyword nobody knows
    refused(
        ctx, "keyword", f"keyword:{tag}", "an unknown keyword argument", lambda: symfem.create_element(cell, name, order, **{**kw, "no_such_option": 1}),
        exc=TypeError, key=tag,
    )  # fmt: skip


def register(ctx, seed):
    """User classes registered in a process of its own."""
    got = fresh_run(lambda: history(seed))
    if got is None:
        raise Skip("the process was stopped")
    if isinstance(got, dict):
        last = got["failed"].strip().splitlines()
        ctx.violate("register:process", "registering and creating user elements failed: " + " | ".join(last[-4:]))
        return
    for ok, kind, mech, msg, key in got:
        ctx.expect(ok, kind, mech, msg, key=f"{seed}|{key}")


def history(seed):
    import symfem
    from symfem.create import add_element
    from symfem.finite_element import CiarletElement, DirectElement, FiniteElement
    from symfem.functionals import PointEvaluation

    r = random.Random(seed)
    out = []

    def say(ok, kind, mech, msg, key=""):
        out.append((bool(ok), kind, f"register:{mech}", msg, key))

    rows = [w for w in table() if w[0] in ("interval", "triangle", "quadrilateral") and w[1][0] != "transition"]
    watch = r.sample(rows, 8)

    def sight():
        v = []
        for cell, names, lo, hi in watch:
            for n in names:
                try:
                    v.append(look(symfem.create_element(cell, n, lo)))
                except Exception as e:  # noqa: BLE001
                    v.append(type(e).__name__)
        return v

    before = sight()
    made = {}

    def new_class(names, references, lo, hi, direct):
        def init_c(self, reference, order, shift=0):
            pt = tuple(sum(c) / sympy.Integer(len(reference.vertices)) for c in zip(*reference.vertices))
            CiarletElement.__init__(
                self, reference, order, [sympy.Integer(1)], [PointEvaluation(reference, pt, entity=(reference.tdim, 0))], reference.tdim, 1
            )
            self.shift = shift

        def init_d(self, reference, order, shift=0):
            DirectElement.__init__(self, reference, order, [sympy.Integer(1) + shift], [(reference.tdim, 0)], reference.tdim, 1)
            self.shift = shift

        d = {
            "__init__": init_d if direct else init_c, "names": names, "references": references, "min_order": lo,
            "continuity": "L2", "value_type": "scalar", "last_updated": "own",
        }  # fmt: skip
        if hi is not None:
            d["max_order"] = hi
        return type("Own" + str(r.randint(0, 10**6)), (DirectElement if direct else CiarletElement,), d)

    for step in range(r.randint(2, 5)):
        names = [f"own element {seed % 1000} {step} {i}" for i in range(r.randint(1, 3))]
        if r.random() < 0.4:  # a registered name on a cell where nobody uses it
            names.append(r.choice(["RT", "Morley", "HHJ", "Bell"]))
            refs = r.sample(["interval", "prism", "pyramid"], r.randint(1, 2))
        else:
            refs = r.sample(["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"], r.randint(1, 3))
        if any((n, c) in made for n in names for c in refs):
            continue
        style = r.randrange(3)
        lo, hi = r.randint(0, 2), None
        if style == 1:
            hi = lo + r.randint(0, 2)
        if style == 2:
            lo, hi = {c: r.randint(0, 2) for c in refs}, {c: r.randint(2, 4) for c in refs[:1]}
        cls = new_class(names, refs, lo, hi, r.random() < 0.5)
        add_element(cls)
        if r.random() < 0.5:
            add_element(cls)  # twice is the same as once
        for n in names:
            for c in refs:
                made[n, c] = cls
                a = lo[c] if isinstance(lo, dict) else lo
                b = hi.get(c) if isinstance(hi, dict) else hi
                for k in range(-1, 7):
                    fine = k >= a and (b is None or k <= b)
                    try:
                        el = symfem.create_element(c, n, k)
                        say(
                            fine and type(el) is cls and el.order == k and el.reference.name == c,
                            "user element",
                            "order",
                            f"order {k} of a user element with limits {a}..{b} accepted, or another element made",
                            f"{n}|{c}|{k}",
                        )
                    except ValueError:
                        say(not fine, "user element", "order", f"order {k} of a user element with limits {a}..{b} refused", f"{n}|{c}|{k}")
                    except Exception as e:  # noqa: BLE001
                        say(False, "user element", "order", f"order {k} of a user element: {type(e).__name__}", f"{n}|{c}|{k}")
                sel = symfem.create_element(c, n, a, shift=3)
                say(sel.shift == 3, "user element", "keywords", "a keyword argument did not reach the user's class", f"{n}|{c}|kw")
                say(
                    len(sel.get_basis_functions()) == 1 and sel.entity_dofs(sel.reference.tdim, 0) == [0],
                    "user element",
                    "works",
                    "the user's element does not work",
                    f"{n}|{c}|w",
                )
            for c in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"):
                if (n, c) not in made and n.startswith("own"):
                    try:
                        symfem.create_element(c, n, 1)
                        say(False, "user element", "cells", "created on a cell it does not support", f"{n}|{c}")
                    except ValueError:
                        say(True, "user element", "cells", "", f"{n}|{c}")

    class NoNames(CiarletElement):
        names = []
        references = ["triangle"]

    for bad in (FiniteElement, int, object, "Lagrange", None, 3, NoNames, symfem.create_element("triangle", "P", 1)):
        try:
            add_element(bad)
            say(False, "bad class", "types", f"add_element({bad!r:.40}) accepted", repr(bad)[:30])
        except TypeError:
            say(True, "bad class", "types", "", repr(bad)[:30])
        except Exception as e:  # noqa: BLE001
            say(False, "bad class", "types", f"add_element({bad!r:.40}) raised {type(e).__name__}", repr(bad)[:30])

    # a class that claims a taken name on a taken cell
    thief = new_class(["Lagrange"], ["triangle"], 0, None, True)
    try:
        add_element(thief)
        say(False, "conflict", "conflict", "a class claiming 'Lagrange' on a triangle was registered")
    except Exception:  # noqa: BLE001
        say(True, "conflict", "conflict", "")
    say(sight() == before, "others", "others", "registering user classes changed other elements", "watch")
    say(type(symfem.create_element("triangle", "Lagrange", 1)) is not thief, "others", "others", "Lagrange was replaced", "thief")
    for (n, c), cls in made.items():
        lo = cls.min_order[c] if isinstance(cls.min_order, dict) else cls.min_order
        say(type(symfem.create_element(c, n, lo)) is cls, "user element", "kept", "a user element was lost later", f"{n}|{c}|kept")
    return out
