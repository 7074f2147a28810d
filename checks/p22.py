"""P22: pictures are well formed and show exactly what they should."""

import math
import os
import random
import re
import shutil
import struct
import tempfile
import xml.etree.ElementTree as ET
import zlib

import sympy

from harness import catalogue as C
from harness import deep, fem
from harness import oracle as O
from harness.core import Case, Skip

PROPERTY = "P22"
TECHNIQUE = "runtime monitor: SVG, TikZ and PNG output is parsed back and compared with what was asked for, computed independently"
RULE = (
    "One case = one picture (random API calls with random options, the DOF diagram of an element, the entity diagram of a cell, the "
    "plot of a function). The monitor writes it in every format, parses the files with its own SVG and TikZ readers, and compares "
    "the shapes, one to one, with those requested, projected by its own arithmetic: lines, curves, arrows with their heads, circles, "
    "numbers, texts, fills, colours; checks the canvas, that the formats agree and that drawing again gives the same file. "
    "Distinct = picture x kind of shape x number."
)
ASSUMPTIONS = [
    "default scale of 450 px, arrow of 1/8 shifted by a third of its length, values drawn at 5/8 (scalars) and 1/4 (vectors) of "
    "their size on the cell's own lattice of 6 points per side (3 on the pieces of a macro cell)",
    "the order in which shapes are painted is judged for pictures made by API calls only",
]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 100, "thorough": 300}
FLOOR = 15000

TOL = 1e-6
NS = "{http://www.w3.org/2000/svg}"
AXES = ((1.0, -2 / 25), (0.5, 0.2), (0.0, 1.0))


# ---------------------------------------------------------------- readers


class Malformed(Exception):
    pass


def number(s):
    if not re.fullmatch(r"\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*", s or ""):
        raise Malformed(f"{s!r} is not a number")
    return float(s)


def read_svg(text):
    """(width, height, title, desc, [shape]) of an SVG made of lines, cubic paths, circles, texts and polygons."""
    try:
        root = ET.fromstring(text)
    except ET.ParseError as e:
        raise Malformed(f"not XML: {e}")
    if root.tag != NS + "svg":
        raise Malformed(f"the root is {root.tag}")
    title = desc = None
    shapes = []
    for el in root:
        tag = el.tag.replace(NS, "")
        g = el.attrib.get
        if tag == "title":
            title = el.text or ""
        elif tag == "desc":
            desc = el.text or ""
        elif tag == "line":
            pts = ((number(g("x1")), number(g("y1"))), (number(g("x2")), number(g("y2"))))
            shapes.append({"kind": "line", "pts": pts, "color": g("stroke"), "width": number(g("stroke-width"))})
        elif tag == "path":
            n = r"(-?[\d.]+(?:e-?\d+)?)"
            m = re.fullmatch(rf"\s*M\s*{n}[\s,]+{n}\s*C\s*" + r"[\s,]+".join([n] * 6) + r"\s*", g("d"))
            if not m:
                raise Malformed(f"path {g('d')!r}")
            v = [number(i) for i in m.groups()]
            if g("fill") != "none":
                raise Malformed("a filled curve")
            pts = tuple(zip(v[::2], v[1::2]))
            shapes.append({"kind": "curve", "pts": pts, "color": g("stroke"), "width": number(g("stroke-width"))})
        elif tag == "circle":
            s = {"kind": "circle", "pts": ((number(g("cx")), number(g("cy"))),), "r": number(g("r")), "color": g("stroke")}
            shapes.append({**s, "fill": g("fill"), "width": number(g("stroke-width"))})
        elif tag == "text":
            style = dict(i.split(":", 1) for i in (g("style") or "").split(";") if ":" in i)
            s = {"kind": "text", "pts": ((number(g("x")), number(g("y"))),), "text": el.text or "", "color": g("fill")}
            shapes.append({**s, "size": number(g("font-size")), "style": {a.strip(): b.strip() for a, b in style.items()}})
        elif tag == "polygon":
            pts = tuple(tuple(number(i) for i in p.split(",")) for p in g("points").split())
            shapes.append({"kind": "fill", "pts": pts, "color": g("fill"), "opacity": number(g("opacity"))})
        else:
            raise Malformed(f"unknown SVG element {tag}")
    return number(root.attrib["width"]), number(root.attrib["height"]), title, desc, shapes


PT = r"\(\s*([^\s,()]+)\s*,\s*([^\s,()]+)\s*\)"


def read_tikz(text, comment):
    """[shape] of a TikZ picture made of draw, fill and node commands."""
    if not text.startswith(comment):
        raise Malformed("the comment is missing")
    body = text[len(comment) :].strip()
    m = re.fullmatch(r"\\begin\{tikzpicture\}\[x=1cm,y=1cm\](.*)\\end\{tikzpicture\}", body, re.S)
    if not m:
        raise Malformed("no tikzpicture environment")
    body = m.group(1)
    defs = {}

    def define(m):
        if m.group(1) in defs:
            raise Malformed(f"the colour {m.group(1)} is defined twice")
        defs[m.group(1)] = "#" + m.group(2)
        return ""

    body = re.sub(r"\\definecolor\{(\w+)\}\{HTML\}\{([0-9A-Fa-f]{6})\}", define, body)

    def color(c):
        if c.startswith("customcolor") and c not in defs:
            raise Malformed(f"the colour {c} is used but not defined")
        if c.startswith("#"):
            raise Malformed(f"{c} is not a TikZ colour")
        return defs.get(c, c)

    used = set()
    shapes = []
    pos = 0
    while body[pos:].strip():
        m = re.compile(r"\s*\\(draw|fill|node)\[([^\]]*)\]").match(body, pos)
        if not m:
            raise Malformed(f"unknown command {body[pos : pos + 40]!r}")
        cmd, opts = m.group(1), [o.strip() for o in m.group(2).split(",")]
        pos = m.end()
        depth, end = 0, pos
        while end < len(body) and (depth > 0 or body[end] != ";"):
            depth += (body[end] == "{") - (body[end] == "}")
            end += 1
        if end >= len(body):
            raise Malformed("a command without an end")
        rest = body[pos:end].strip()
        pos = end + 1
        kv = dict(o.split("=", 1) for o in opts if "=" in o)
        flags = [o for o in opts if "=" not in o]
        arrow = "-stealth" in flags
        cols = [o for o in flags if o not in ("-stealth",)]
        if len(cols) != 1:
            raise Malformed(f"options {opts}")
        used.add(cols[0])
        s = {"color": color(cols[0])}
        if "line width" in kv:
            if not kv["line width"].endswith("pt"):
                raise Malformed(kv["line width"])
            s["width"] = number(kv["line width"][:-2]) / 0.2
        if cmd == "draw":
            curve = re.fullmatch(rf"{PT}\s*\.\. controls {PT}\s*and\s*{PT}\s*\.\.\s*{PT}", rest)
            line = re.fullmatch(rf"{PT}\s*--\s*{PT}", rest)
            circle = re.fullmatch(rf"{PT}\s*circle\s*\(([\d.]+)pt\)", rest)
            m = curve or line or circle
            if not m or "width" not in s:
                raise Malformed(f"draw {rest[:60]!r}")
            v = [number(i) for i in m.groups()]
            if circle:
                used.add(kv["fill"])
                s.update(kind="circle", pts=((v[0], v[1]),), r=v[2] / 0.2, fill=color(kv["fill"]))
            else:
                s.update(kind="curve" if curve else "arrow" if arrow else "line", pts=tuple(zip(v[::2], v[1::2])))
        elif cmd == "fill":
            parts = [p.strip() for p in rest.split("--")]
            if parts[-1] != "cycle":
                raise Malformed("an open polygon is filled")
            pts = []
            for p in parts[:-1]:
                m = re.fullmatch(PT, p)
                if not m:
                    raise Malformed(f"fill {rest[:60]!r}")
                pts.append(tuple(number(i) for i in m.groups()))
            s.update(kind="fill", pts=tuple(pts), opacity=number(kv["opacity"]))
        else:
            m = re.fullmatch(rf"at\s*{PT}\s*\{{(\\[A-Za-z]+)\s*(.*)\}}", rest, re.S)
            if not m:
                raise Malformed(f"node {rest[:60]!r}")
            t = m.group(4)
            mathmode = len(t) >= 2 and t[0] == t[-1] == "$"
            s.update(kind="text", pts=((number(m.group(1)), number(m.group(2))),), anchor=kv["anchor"], tex=m.group(3))
            s.update(text=t[1:-1] if mathmode else t, math=mathmode)
        shapes.append(s)
    extra = set(defs) - used
    if extra:
        raise Malformed(f"colours of other pictures are defined: {sorted(extra)}")
    if len(set(defs.values())) != len(defs):
        raise Malformed("one colour has two names")
    return shapes


def anchors(s):
    """The points of a shape that decide the size of the picture."""
    return (s["pts"][0], s["pts"][-1]) if s["kind"] == "curve" else s["pts"]


def box(shapes):
    pts = [p for s in shapes for p in anchors(s)]
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return min(xs), max(xs), min(ys), max(ys)


def normal(shapes, scale, flip=False):
    """The shapes in the units of the drawing, moved so that the box starts at the origin."""
    x0, _, y0, y1 = box(shapes)
    out = []
    for s in shapes:
        pts = tuple(((p[0] - x0) / scale, ((y1 - p[1]) if flip else (p[1] - y0)) / scale) for p in s["pts"])
        out.append({**s, "pts": pts})
    return out


def near(a, b, tol=TOL):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def near_pts(a, b, tol=TOL):
    return len(a) == len(b) and all(near(p, q, tol) for u, v in zip(a, b) for p, q in zip(u, v))


def gather(svg, tikz):
    """Join the arrows of an SVG (a shaft and two strokes) using the TikZ picture of the same drawing."""
    out, k = [], 0
    for t in tikz:
        if k >= len(svg):
            raise Malformed("the SVG has fewer shapes than the TikZ picture")
        if t["kind"] != "arrow":
            out.append(svg[k])
            k += 1
            continue
        shaft = svg[k]
        k += 1
        if shaft["kind"] != "line":
            raise Malformed(f"a {shaft['kind']} in the SVG where TikZ has an arrow")
        s, e = shaft["pts"]
        if max(abs(s[0] - e[0]), abs(s[1] - e[1])) < 1e-9:
            out.append({**shaft, "kind": "arrow"})
            continue
        heads = svg[k : k + 2]
        k += 2
        if len(heads) != 2 or any(h["kind"] != "line" or not near_pts(h["pts"][1:], (e,)) for h in heads):
            raise Malformed("an arrow without head")
        if any(h["color"] != shaft["color"] or h["width"] != shaft["width"] for h in heads):
            raise Malformed("the head of an arrow looks unlike its shaft")
        d = (e[0] - s[0], e[1] - s[1])
        along, side = [], []
        for h in heads:
            v = (h["pts"][0][0] - e[0], h["pts"][0][1] - e[1])
            along.append(v[0] * d[0] + v[1] * d[1])
            side.append(d[0] * v[1] - d[1] * v[0])
        if shaft["width"] > 0 and not (all(a < 0 for a in along) and near(along[0], along[1], 1e-5) and near(side[0], -side[1], 1e-5)):
            raise Malformed("the head of an arrow is not at its end or not symmetric")
        if shaft["width"] > 0 and abs(side[0]) < 1e-9 * abs(along[0]):
            raise Malformed("the head of an arrow is flat")
        out.append({**shaft, "kind": "arrow"})
    if k != len(svg):
        raise Malformed("the SVG has more shapes than the TikZ picture")
    return out


def same_shape(a, b, fmt, tol=TOL):
    """Does the shape b of a file show the requested shape a?"""
    if a["kind"] != b["kind"]:
        return False
    if a["kind"] == "fill":
        if len(a["pts"]) != len(b["pts"]):
            return False
        n = len(a["pts"])
        turns = [b["pts"][i:] + b["pts"][:i] for i in range(n)]
        if a.get("anyway"):
            turns += [t[::-1] for t in turns]
        elif turns:
            turns = turns[:1]
        if not any(near_pts(a["pts"], t, tol) for t in turns):
            return False
    elif not near_pts(a["pts"], b["pts"], tol):
        if not (a.get("anyway") and near_pts(a["pts"], b["pts"][::-1], tol)):
            return False
    for k in ("color", "fill", "opacity", "r", "text"):
        if k in a and (a[k] != b.get(k) if isinstance(a[k], str) else not near(float(a[k]), float(b.get(k, -1e9)))):
            return False
    if "width" in a and not near(float(a["width"]), b["width"], 1e-9):
        return False
    if a["kind"] == "text" and "anchor" in a:
        want = a["anchor"]
        if fmt == "tikz":
            return b["anchor"] == want
        h = "end" if want.endswith("east") else "start" if want.endswith("west") else "middle"
        v = "top" if want.startswith("north") else "bottom" if want.startswith("south") else "middle"
        base = b["style"].get("dominant-baseline", "auto")
        vs = {
            "top": {"hanging", "text-before-edge", "text-top"},
            "bottom": {"text-after-edge", "ideographic", "text-bottom", "auto", "alphabetic"},
            "middle": {"middle", "central"},
        }[v]
        return b["style"].get("text-anchor", "start") == h and base in vs
    return True


def show(s):
    pts = " ".join(f"({p[0]:.4g},{p[1]:.4g})" for p in s["pts"])
    return f"{s['kind']} {pts} " + " ".join(f"{k}={s[k]}" for k in ("color", "fill", "text", "width", "anchor") if k in s)


def match(ctx, tag, want, got, fmt, ordered=False):
    """One to one."""
    if ordered:
        ctx.expect(len(want) == len(got), "shapes", f"count:{tag}:{fmt}", f"{len(got)} shapes instead of {len(want)}", key=f"{tag}|{fmt}")
        for n, (a, b) in enumerate(zip(want, got)):
            ctx.expect(
                same_shape(a, b, fmt), a["kind"], f"shape:{tag}:{a['kind']}:{fmt}", f"{show(b)} instead of {show(a)}",
                key=f"{tag}|{n}|{fmt}",
            )  # fmt: skip
        return
    left = list(got)
    for n, a in enumerate(want):
        k = next((i for i, b in enumerate(left) if same_shape(a, b, fmt)), None)
        ok = ctx.expect(
            k is not None, a["kind"], f"missing:{tag}:{a['kind']}:{fmt}", f"not in the picture: {show(a)}", key=f"{tag}|{n}|{fmt}"
        )
        if ok:
            left.pop(k)
    ctx.expect(
        not left,
        "nothing else",
        f"extra:{tag}:{fmt}",
        f"{len(left)} more shapes, such as {show(left[0]) if left else ''}",
        key=f"{tag}|{fmt}",
    )


# ---------------------------------------------------------------- drawings


def f(x):
    return float(O.num(x)) if not isinstance(x, float) else x


def project(p, axes=AXES):
    p = [f(i) for i in p]
    if len(p) == 3:
        return tuple(sum(axes[i][k] * p[i] for i in range(3)) for k in range(2))
    return tuple((p + [0.0, 0.0])[:2])


class Folder:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="pictures")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def slurp(path):
    with open(path) as g:
        return g.read()


def png_size(path):
    with open(path, "rb") as g:
        data = g.read()
    if data[:8] != b"\x89PNG\r\n\x1a\n":
        raise Malformed("not a PNG")
    pos, idat, size = 8, b"", None
    while pos < len(data):
        n, kind = struct.unpack(">I4s", data[pos : pos + 8])
        chunk = data[pos + 8 : pos + 8 + n]
        if zlib.crc32(kind + chunk) != struct.unpack(">I", data[pos + 8 + n : pos + 12 + n])[0]:
            raise Malformed("a PNG chunk with a wrong checksum")
        if kind == b"IHDR":
            size = struct.unpack(">II", chunk[:8])
        if kind == b"IDAT":
            idat += chunk
        pos += 12 + n
    return size, any(zlib.decompress(idat))


def draw(ctx, tag, make, want, opts, comment, png=False, ordered=False, fresh=True):
    """Write a picture in every format, twice, and compare it with the shapes `want` (drawing units, before scaling)."""
    with Folder() as d:
        names = [os.path.join(d, f"a.{e}") for e in ("svg", "tex")]
        make(names)
        for n in names:
            if not ctx.expect(
                os.path.exists(n), "written", f"written:{tag}", f"{os.path.basename(n)} was not written", key=f"{tag}|{n[-3:]}"
            ):
                return
        texts = [slurp(n) for n in names]
        again = [os.path.join(d, f"b.c.{e}") for e in ("tex", "svg")]
        for n in again:
            make(n)
        ctx.expect(
            [slurp(n) for n in again[::-1]] == texts, "again", f"again:{tag}", "drawing the same picture again gave another file", key=tag
        )
        for bad in ("c.pdf", "picture", "a.svgz"):
            try:
                make(os.path.join(d, bad))
                refused = False
            except ValueError:
                refused = True
            except Exception as e:  # noqa: BLE001
                refused = type(e).__name__
            ctx.expect(
                refused is True and not os.path.exists(os.path.join(d, bad)), "refused", f"extension:{tag}",
                f"a file called {bad} was not refused with ValueError ({refused})", key=f"{tag}|{bad}",
            )  # fmt: skip
        try:
            w, h, title, desc, svg = read_svg(texts[0])
            tikz = read_tikz(texts[1], comment)
            svg = gather(svg, tikz)
        except Malformed as e:
            ctx.expect(False, "well formed", f"malformed:{tag}", str(e), key=tag)
            return
        ctx.expect(True, "well formed", f"malformed:{tag}", "", key=tag)
        for k, got in (("title", title), ("desc", desc)):
            ctx.expect(got == opts.get(k), k, f"{k}:{tag}", f"the {k} is {got!r} instead of {opts.get(k)!r}", key=tag)
        pad = f(opts.get("padding", 25))
        x0, x1, y0, y1 = box(svg)
        curves = any(s["kind"] == "curve" for s in svg)
        ok = x0 >= pad - 1e-6 and y0 >= pad - 1e-6 and x1 <= w - pad + 1e-6 and y1 <= h - pad + 1e-6
        if not curves:
            ok = ok and near(x1 - x0 + 2 * pad, w) and near(y1 - y0 + 2 * pad, h)
        ctx.expect(
            ok, "canvas", f"canvas:{tag}", f"a drawing from {(x0, y0)} to {(x1, y1)} on a {w}x{h} canvas with padding {pad}", key=tag
        )
        a0, a1, b0, b1 = box(want)
        scale = 450.0
        if opts.get("scale") is not None:
            scale = float(opts["scale"])
        for k, size, ext in (("width", x1 - x0, a1 - a0), ("height", y1 - y0, b1 - b0)):
            if opts.get(k) is not None:
                ok = size <= opts[k] + 1e-6 if curves else near(size, opts[k])
                ctx.expect(ok, "size", f"size:{tag}", f"the drawing has {k} {size} instead of {opts[k]}", key=f"{tag}|{k}")
                scale = size / ext
        ask = normal(want, 1.0)
        match(ctx, tag, ask, normal(svg, scale, True), "svg", ordered)
        match(ctx, tag, ask, normal(tikz, scale / 200), "tikz", ordered)
        if png and max(w, h) < 12000:
            for o, ew, eh in (
                ({}, w, h),
                ({"png_scale": 2}, 2 * w, 2 * h),
                ({"png_scale": 0.5}, w / 2, h / 2),
                ({"png_width": 200}, 200, None),
                ({"png_height": 150}, None, 150),
            ):
                p = os.path.join(d, "p.png")
                try:
                    make(p, plot_options=o)
                except ImportError:
                    raise Skip("CairoSVG is not installed")
                (pw, ph), ink = png_size(p)
                ok = ink and (ew is None or abs(pw - ew) <= 1.5) and (eh is None or abs(ph - eh) <= 1.5)
                ctx.expect(ok, "png", f"png:{tag}", f"a PNG of {pw}x{ph} (ink: {ink}) with {o} from an SVG of {w}x{h}", key=f"{tag}|{o}")
                os.remove(p)
        if fresh:
            ctx.sample({"picture": tag, "shapes": len(svg)})


def comment_of(opts):
    if opts.get("tex_comment") is not None:
        return opts["tex_comment"]
    from symfem.plotting import Picture

    return Picture(tex_comment=None).tex_comment


def options(r, three=False, flat=False):
    o = {}
    k = r.randrange(5)
    k = 0 if flat and k == 3 else k
    if k == 1:
        o["scale"] = r.choice([10, 100, 333])
    elif k == 2:
        o["width"] = r.choice([50, 300, 1001])
    elif k == 3:
        o["height"] = r.choice([50, 300, 777])
    if r.random() < 0.4:
        o["title"] = r.choice(["A title", "x < y & y > z", "\"quotes\" and 'more'", "<b>", "é & ∂Ω"])
    if r.random() < 0.4:
        o["desc"] = r.choice(["A description", "f(x) = x < 3 && x > 1", "</desc>"])
    if r.random() < 0.3:
        o["padding"] = sympy.Rational(r.randint(0, 80), r.choice([1, 2]))
    if r.random() < 0.3:
        o["tex_comment"] = "% mine\n"
    if r.random() < 0.3:
        o["svg_metadata"] = "<!-- mine -->"
    if r.random() < 0.3:
        o["dof_arrow_size"] = r.choice([2, sympy.Rational(1, 2), sympy.Integer(3)])
    if three and r.random() < 0.5:
        o["axes_3d"] = tuple(tuple(sympy.Rational(r.randint(-9, 9) or 1, r.choice([3, 5, 7])) for _ in range(2)) for _ in range(3))
    return o


def axes_of(o):
    return tuple(tuple(f(i) for i in a) for a in o["axes_3d"]) if "axes_3d" in o else AXES


def dof_shapes(o, p, direction, n, color, shifted, bold=True):
    """The shapes of a DOF marker at p (2D)."""
    from symfem.plotting import colors

    out = []
    if direction is not None:
        ln = math.hypot(*direction)
        size = f(o.get("dof_arrow_size", 1)) / 8
        v = (direction[0] / ln * size, direction[1] / ln * size)
        if shifted:
            p = (p[0] + v[0] / 3, p[1] + v[1] / 3)
        out.append({"kind": "arrow", "pts": (p, (p[0] + v[0], p[1] + v[1])), "color": color})
    line, fill = (colors.BLACK, color) if bold else (color, colors.WHITE)
    out.append({"kind": "circle", "pts": (p,), "color": line, "fill": fill})
    out.append({"kind": "text", "pts": (p,), "text": str(n), "color": colors.BLACK if bold else color})
    return out


def cases(tier, seed):
    quick = tier == "quick"
    rng = random.Random(f"p22/{seed}")
    out = []
    for n in range(60 if quick else 600):
        out.append(Case(f"api/{n}", "api", [rng.randint(1, 10**9), n % 12 == 0], 0.5))
    for cell in (
        "interval",
        "triangle",
        "quadrilateral",
        "tetrahedron",
        "hexahedron",
        "prism",
        "pyramid",
        "dual polygon(5)",
        "dual polygon(6)",
    ):
        for n in range(3 if quick else 12):
            out.append(Case(f"entities/{cell}/{n}", "entities", [cell, rng.randint(1, 10**9) if n else 0], 0.5))
    items = C.select(2 if quick else 20)
    chosen = C.thin(items, 14 if quick else 300, seed, factor=3)
    for it in chosen:
        opt = rng.randint(1, 10**9)
        out.append(Case(f"dofs/{it[0]}", "dofs", [it[1], it[2], it[3], it[4], opt], it[5] + 0.3))
    more = deep.orders(0.5 if quick else 20, 1 if quick else 3)
    more += [(i[1], i[2], i[3], i[4]) for i in C.select(60) if i[5] > (0.5 if quick else 20) and i[3] and "dual" not in i[1]]
    for it in rng.sample(more, 120 if quick else 400):
        out.append(Case(f"dofs/deep/{C.label(*it)}", "dofs", [*it, rng.randint(1, 10**9), 60 if quick else 150], 2))
    flat = [i for i in items if i[5] < (0.6 if quick else 5)]
    for it in C.thin(flat, 12 if quick else 200, seed + 1, factor=4):
        n = rng.randint(0, 10**6)
        out.append(Case(f"basis/{it[0]}", "basis", [it[1], it[2], it[3], it[4], n], it[5] * 2 + 0.8))
    for n in range(24 if quick else 200):
        out.append(Case(f"function/{n}", "function", [rng.randint(1, 10**9)], 1))
    return out


COLORS = ["#FF8800", "#000000", "#12ABEF", "red", "blue", "#44AAFF", "orange"]
ANCHORS = ["center", "north", "south", "east", "west", "north east", "north west", "south east", "south west"]


def api(ctx, seed, png):
    """Random calls of a Picture."""
    from symfem.functions import VectorFunction
    from symfem.plotting import Picture

    r = random.Random(seed)
    dim = r.choice([1, 2, 2, 3, 3])
    o = options(r, dim == 3)
    axes = axes_of(o)

    def pt():
        d = dim if r.random() < 0.8 else 2
        p = tuple(r.choice([sympy.Rational(r.randint(-40, 40), r.choice([1, 2, 3, 8])), r.randint(-3, 3)]) for _ in range(d))
        if r.random() < 0.15:
            p = tuple(i * sympy.sqrt(2) for i in p)
        if r.random() < 0.15:
            p = tuple(sympy.Float(float(i)) for i in p)
        q = project(p, axes)
        return (VectorFunction(p) if r.random() < 0.2 and len(p) > 1 else list(p) if r.random() < 0.2 else p), q

    calls, want = [], []
    for k in range(r.randint(1, 12)):
        kind = r.choice(["line", "bezier", "arrow", "marker", "dofarrow", "circle", "math", "fill"])
        c, w = r.choice(COLORS), r.choice([4.0, 2, 1.5, 8])
        (a, a2), (b, b2), (m, m2), (n, n2) = pt(), pt(), pt(), pt()
        if kind in ("line", "arrow"):
            if kind == "arrow" and r.random() < 0.1:
                b, b2 = a, a2
            calls.append(("add_" + kind, (a, b, c, w)))
            want.append({"kind": kind, "pts": (a2, b2), "color": c, "width": w})
        elif kind == "bezier":
            calls.append(("add_bezier", (a, m, n, b, c, w)))
            want.append({"kind": "curve", "pts": (a2, m2, n2, b2), "color": c, "width": w})
        elif kind == "marker":
            num, bold = r.choice([0, 7, 12, 345]), r.random() < 0.5
            calls.append(("add_dof_marker", (a, num, c, bold)))
            want += dof_shapes(o, a2, None, num, c, False, bold)
        elif kind == "dofarrow":
            if math.hypot(*b2) < 1e-3:
                continue
            num, bold, sh = r.choice([0, 7, 12, 345]), r.random() < 0.5, r.random() < 0.5
            calls.append(("add_dof_arrow", (a, b, num, c, sh, bold)))
            want += dof_shapes(o, a2, b2, num, c, sh, bold)
        elif kind == "circle":
            num, c2, c3, rad = r.randint(-5, 500), r.choice(COLORS), r.choice(COLORS), r.choice([5, 20.0, 12.5])
            calls.append(("add_ncircle", (a, num, c, c2, c3, rad, r.choice([None, 10, 40]), w)))
            want.append({"kind": "circle", "pts": (a2,), "color": c, "fill": c3, "r": rad, "width": w})
            want.append({"kind": "text", "pts": (a2,), "text": str(num), "color": c2})
        elif kind == "math":
            text, anchor = r.choice(["x", "y_1", "a<b", "a&b", r"\alpha", "K^{-1}"]), r.choice(ANCHORS)
            calls.append(("add_math", (tuple(a), text, c, r.choice([12, 35, 50]), anchor)))
            want.append({"kind": "text", "pts": (a2,), "text": text, "color": c, "anchor": anchor})
        else:
            pts = [(a, a2), (b, b2), (m, m2), (n, n2)][: r.choice([3, 4])]
            op = r.choice([1.0, 0.5, 0.25])
            calls.append(("add_fill", ([p for p, _ in pts], c, op)))
            want.append({"kind": "fill", "pts": tuple(q for _, q in pts), "color": c, "opacity": op})
    if not want:
        raise Skip("nothing to draw")
    x0, x1, y0, y1 = box(want)
    if (o.get("width") and x1 - x0 < 1e-3) or (o.get("height") and y1 - y0 < 1e-3):
        raise Skip("a drawing without extent cannot be scaled")

    def make(name, plot_options={}):
        p = Picture(**o)
        for fn, args in calls:
            getattr(p, fn)(*args)
        texts = {".svg": p.as_svg(), ".tex": p.as_tikz()}
        p.save(name, plot_options=plot_options)
        for nm in name if isinstance(name, list) else [name]:
            if nm[-4:] in texts and os.path.exists(nm):
                ctx.expect(slurp(nm) == texts[nm[-4:]], "saved", "saved:api", "the file differs from the string", key=str(seed))

    # a picture with other colours in between
    q = Picture()
    q.add_line((0, 0), (1, 1), "#ABCDEF")
    q.as_tikz()
    draw(ctx, "api", make, want, o, comment_of(o), png=png, ordered=True)
    for unit in ("in", "", "pt"):
        p = Picture(**o)
        p.add_line((0, 0), (1, 1))
        try:
            p.compute_scale(unit)
            ok = False
        except ValueError:
            ok = True
        ctx.expect(ok, "refused", "unit", f"the unit {unit!r} was accepted", key=unit)


def cell_shapes(verts, edges, axes, color, kind="line"):
    return [{"kind": kind, "pts": (project(verts[a], axes), project(verts[b], axes)), "color": color, "anyway": True} for a, b in edges]


def polygon(cell, face):
    """The vertices of a face in the order of its boundary."""
    if len(face) == 3:
        return list(face)
    if len(face) == 4:
        return [face[0], face[1], face[3], face[2]]
    return list(face)


def topology(ref):
    """(edges, faces in boundary order) by independent tables."""
    name = ref.name
    if name.startswith("dual polygon"):
        n = len(ref.vertices)
        return [(i, (i + 1) % n) for i in range(n)], [list(range(n))]
    edges = [tuple(e) for e in O.sub_entities(name, 1)] if ref.tdim >= 1 else []
    faces = [polygon(name, f) for f in O.sub_entities(name, 2)] if ref.tdim >= 2 else []
    return edges, faces


def cell_verts(r, cell):
    if cell in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"):
        return [list(v) for v in O.rand_affine_cell(r, cell)[2]]
    return None


def build(cell, seed):
    import symfem

    if seed == 0:
        return symfem.create_reference(cell)
    V = cell_verts(random.Random(seed), cell)
    if V is None:
        return symfem.create_reference(cell)
    return symfem.create_reference(cell, vertices=tuple(tuple(sympy.Rational(c.numerator, c.denominator) for c in v) for v in V))


def entities(ctx, cell, seed):
    """The numbering of the sub-entities: one copy of the cell for each dimension, with the entities of it numbered."""
    from symfem.plotting import colors

    ref = build(cell, seed)
    r = random.Random(seed)
    o = options(r, False, ref.tdim == 1) if seed else {}
    o.pop("dof_arrow_size", None)
    tag = f"entities:{cell}"
    comment = comment_of(o)
    verts = [[f(c) for c in v] for v in ref.vertices]
    edges, faces = topology(ref)
    gdim = len(verts[0])

    def make(name, plot_options={}):
        ref.plot_entity_diagrams(name, plot_options=plot_options, **o)

    # read the offsets of the copies from the picture
    with Folder() as d:
        name = os.path.join(d, "a.tex")
        make(name)
        try:
            shapes = read_tikz(slurp(name), comment)
        except Malformed as e:
            ctx.expect(False, "well formed", f"malformed:{tag}", str(e), key=tag)
            return
    lines = [s for s in shapes if s["kind"] == "line"]
    m = len(edges)
    if not ctx.expect(
        len(lines) == m * (ref.tdim + 1),
        "line",
        f"count:{tag}",
        f"{len(lines)} lines, {ref.tdim + 1} copies of {m} edges expected",
        key=tag,
    ):
        return
    arrows = [s for s in shapes if s["kind"] == "arrow"]
    texts = [s for s in shapes if s["kind"] == "text" and s.get("math")]
    labels = {t["text"]: t for t in texts}
    if not ctx.expect(
        len(arrows) == ref.tdim and sorted(labels) == ["x", "y", "z"][: ref.tdim] and len(texts) == ref.tdim, "arrow", f"axes:{tag}",
        f"{len(arrows)} arrows and the labels {sorted(labels)}", key=tag,
    ):  # fmt: skip
        return
    # scale of the picture, from the axes options
    o0 = arrows[0]["pts"][0]
    unit = [(1, 0), (0, 1)] if ref.tdim < 3 else [(1, -0.08), (0.5, 0.2), (0, 1)]
    for k in range(ref.tdim):
        a = arrows[k]
        d = (a["pts"][1][0] - o0[0], a["pts"][1][1] - o0[1])
        par = d[0] * unit[k][1] - d[1] * unit[k][0]
        ctx.expect(
            near_pts(a["pts"][:1], (o0,)) and abs(par) < 1e-6 and d[0] * unit[k][0] + d[1] * unit[k][1] > 0, "arrow", f"axis:{tag}",
            f"the arrow of the axis {'xyz'[k]} points along {d}", key=f"{tag}|{k}",
        )  # fmt: skip
        e = a["pts"][1]
        t = labels["xyz"[k]]["pts"][0]
        others = [q["pts"][1] for j, q in enumerate(arrows) if j != k]
        ctx.expect(
            all(math.dist(t, e) < math.dist(t, q) for q in others) and math.dist(t, o0) > math.dist(e, o0) - 1e-9, "text", f"label:{tag}",
            f"the label {'xyz'[k]} is not at the end of its arrow", key=f"{tag}|{k}",
        )  # fmt: skip
    # each copy: half size, shifted by a multiple of one vector
    # the size of the copies follows from their edges
    want0 = cell_shapes(verts, edges, AXES, "")
    scale = 2 * sum(math.dist(*s["pts"]) for s in lines) / (ref.tdim + 1) / sum(math.dist(*s["pts"]) for s in want0)
    half = scale / 2
    flatv = [project(v) for v in verts]
    base = None
    copies = []
    for k in range(ref.tdim + 1):
        part = lines[m * k : m * (k + 1)]
        cx = sum(p[0] for s in part for p in s["pts"]) / (2 * m)
        cy = sum(p[1] for s in part for p in s["pts"]) / (2 * m)
        ex = sum(flatv[i][0] for e in edges for i in e) / (2 * m) * half
        ey = sum(flatv[i][1] for e in edges for i in e) / (2 * m) * half
        off = (cx - ex, cy - ey)
        copies.append(off)
        base = base or off
    step = (copies[1][0] - copies[0][0], copies[1][1] - copies[0][1])
    ctx.expect(
        all(near_pts(((c[0] - base[0], c[1] - base[1]),), ((k * step[0], k * step[1]),), 1e-5) for k, c in enumerate(copies))
        and math.hypot(*step) > 1e-6, "copies", f"copies:{tag}", "the copies of the cell are not evenly spaced", key=tag,
    )  # fmt: skip
    want = []
    for k in range(ref.tdim + 1):
        dx, dy = copies[k][0] - base[0], copies[k][1] - base[1]

        def at(p):
            q = project(p)
            return (q[0] / 2 + dx / scale, q[1] / 2 + dy / scale)

        for a, b in edges:
            want.append({"kind": "line", "pts": (at(verts[a]), at(verts[b])), "color": colors.BLACK, "anyway": True})
        if ref.name.startswith("dual polygon"):
            subs = {0: [[i] for i in range(len(verts))], 1: edges, 2: faces}[k]
        else:
            subs = [[i] for i in range(len(verts))] if k == 0 else O.sub_entities(ref.name, k)
        for n, s in enumerate(subs):
            mid = [sum(verts[i][c] for i in s) / len(s) for c in range(gdim)]
            want += [
                {"kind": "circle", "pts": (at(mid),), "color": colors.entity(k), "fill": colors.WHITE},
                {"kind": "text", "pts": (at(mid),), "text": str(n)},
            ]
    # the axes were judged above: take them as drawn
    z = (base[0], base[1])
    for s in arrows + texts:
        pts = tuple(((p[0] - z[0]) / scale, (p[1] - z[1]) / scale) for p in s["pts"])
        want.append({"kind": s["kind"], "pts": pts, **({"text": s["text"], "anchor": s["anchor"]} if s["kind"] == "text" else {})})
    draw(ctx, tag, make, want, o, comment)


def dofs(ctx, cell, name, kw, order, seed, top=10**9):
    """Every DOF is drawn once, where it is."""
    import symfem
    from symfem.plotting import colors

    el = deep.element(cell, name, kw, order, top) if top < 10**9 else symfem.create_element(cell, name, order, **kw)
    ref = el.reference
    r = random.Random(seed)
    o = options(r, ref.tdim == 3, ref.tdim == 1)
    axes = axes_of(o)
    tag = f"dofs:{cell}/{name}/{order}"
    verts = [[f(c) for c in v] for v in ref.vertices]
    edges, faces = topology(ref)
    want = cell_shapes(verts, edges, axes, colors.BLACK)
    for face in faces:
        want.append(
            {"kind": "fill", "pts": tuple(project(verts[i], axes) for i in face), "color": colors.WHITE, "opacity": 0.5, "anyway": True}
        )
    pos, dirs, ents = el.dof_plot_positions(), el.dof_directions(), el.dof_entities()
    if any(c is None for p in pos for c in p):
        raise Skip("a DOF without position")
    at = [project(p, axes) for p in pos]
    full = [[f(c) for c in p] for p in pos]
    for i in range(el.space_dim):
        d = None
        if dirs[i] is not None:
            d = project(dirs[i], axes)
            if math.hypot(*d) < 1e-3:
                raise Skip("a direction along the line of sight")
        shared = any(j != i and near_pts((full[i],), (full[j],), 1e-12) for j in range(el.space_dim))
        want += dof_shapes(o, at[i], d, i, colors.entity(ents[i][0]), shared)

    def make(fn, plot_options={}):
        el.plot_dof_diagram(fn, plot_options, **o)

    draw(ctx, tag, make, want, o, comment_of(o))


def values(fun, ref, scale):
    """The curves or arrows that show the values of a function."""
    from symfem.plotting import colors

    out = []
    for piece, comps in fem.read(fun):
        cell, n = ref, 6
        if piece is not None:
            import symfem

            kind = fem.piece_type(piece, ref.tdim)
            cell = symfem.create_reference(kind, vertices=tuple(tuple(v) for v in piece))
            n = 3
        if isinstance(comps, fem.Comp):
            pts, pairs = cell.make_lattice_with_lines(n)
            P = [[f(c) for c in p] for p in pts]
            exact = [[O.num(c) for c in p] for p in pts]
            vals = [f(comps.at(p)) * scale * 5 / 8 for p in exact]
            grads = [[f(comps.diff(k).at(p)) * scale * 5 / 8 for k in range(ref.tdim)] for p in exact]
            for i, j in pairs:
                row = []
                for a, b in ((i, j), (j, i)):
                    step = [(v - u) / 3 for u, v in zip(P[a], P[b])]
                    mid = [u + s for u, s in zip(P[a], step)]
                    row.append((P[a] + [vals[a]], mid + [vals[a] + sum(g * s for g, s in zip(grads[a], step))]))
                (s, m1), (e, m2) = row
                out.append({"kind": "curve", "pts": tuple(project(q) for q in (s, m1, m2, e)), "color": colors.ORANGE, "anyway": True})
        else:
            for p in cell.make_lattice(n):
                v = [f(c) for c in fem.flatv(fem.value(comps, [O.num(c) for c in p]))]
                q = [f(c) for c in p]
                e = [a + b * scale / 4 for a, b in zip(q, v)]
                out.append({"kind": "arrow", "pts": (project(q), project(e)), "color": colors.ORANGE})
    return out


def plot_shapes(fun, ref, scale, point=None, direction=None, entity=None, n=None):
    from symfem.plotting import colors

    verts = [[f(c) for c in v] for v in ref.vertices]
    scalar = fun.is_scalar
    extra = [0.0] if scalar else []
    edges, faces = topology(ref)
    want = []
    if entity is not None and entity[0] > 1:
        face = faces[entity[1]] if entity[0] == 2 else None
        if face is None:
            raise Skip("interior DOF of a 3D cell")
        pts = tuple(project(verts[i] + extra) for i in face)
        want.append({"kind": "fill", "pts": pts, "color": colors.BLUE, "opacity": 0.5, "anyway": True})
    for k, (a, b) in enumerate(edges):
        c = colors.BLUE if entity == (1, k) else colors.GRAY
        want.append({"kind": "line", "pts": (project(verts[a] + extra), project(verts[b] + extra)), "color": c, "anyway": True})
    want += values(fun, ref, scale)
    if point is not None:
        d = None
        if direction is not None:
            d = project([f(c) for c in direction] + extra)
        want += dof_shapes({}, project([f(c) for c in point] + extra), d, n, colors.PURPLE, False, bold=False)
    return want


def top(el):
    """The largest size of a basis function on the lattice."""
    best = 0.0
    pts = [[O.num(c) for c in p] for p in el.reference.make_lattice(6)]
    for b in el.get_basis_functions():
        pieces = fem.read(b)
        for p in pts:
            v = fem.values_at(pieces, p, el.reference.tdim)
            for w in v[:1]:
                best = max(best, math.sqrt(sum(f(c) ** 2 for c in fem.flatv(w))))
    return best


def basis(ctx, cell, name, kw, order, n):
    """The plot of a basis function: its cell, its values, its DOF."""
    import symfem

    el = symfem.create_element(cell, name, order, **kw)
    ref = el.reference
    n %= el.space_dim
    tag = f"basis:{cell}/{name}/{order}"
    fun = el.get_basis_functions()[n]
    if not hasattr(fun, "is_scalar") or fun.is_matrix or (fun.is_scalar and ref.tdim == 3) or cell.startswith("dual"):
        with Folder() as d:
            try:
                el.plot_basis_function(n, os.path.join(d, "a.svg"))
            except (ValueError, NotImplementedError):
                ctx.seen("not plottable", tag)
                return
            except ZeroDivisionError:
                raise Skip("the apex of a pyramid")
        ctx.seen("plotted without model", tag)
        return
    point = direction = entity = None
    if hasattr(el, "dofs"):
        d = el.dofs[n]
        try:
            point, direction, entity = d.dof_point(), d.dof_direction(), tuple(d.entity)
        except NotImplementedError:
            raise Skip("the DOF has no direction")
        if any(c is None for c in point):
            raise Skip("the DOF has no point")
        if direction is not None and math.hypot(*project(direction)) < 1e-3:
            raise Skip("a direction along the line of sight")
    biggest = top(el)
    if biggest < 1e-9:
        raise Skip("nothing to see on the lattice")
    want = plot_shapes(fun, ref, 1 / biggest, point, direction, entity, n)

    def make(fn, plot_options={}):
        el.plot_basis_function(n, fn, plot_options=plot_options)

    draw(ctx, tag, make, want, {}, comment_of({}))


def function(ctx, seed):
    """The plot of a user's function, at several scales."""
    import symfem

    r = random.Random(seed)
    cell = r.choice(["interval", "triangle", "quadrilateral", "triangle", "quadrilateral", "tetrahedron", "hexahedron"])
    t = O.TDIM[cell]
    ref = build(cell, r.choice([0, r.randint(1, 10**9)]) if t < 3 else 0)
    scalar = t == 1 or (t == 2 and r.random() < 0.5)
    xs = symfem.symbols.x[:t]

    def poly():
        e = sympy.Integer(0)
        for _ in range(r.randint(1, 3)):
            m = sympy.Rational(r.randint(-4, 4), r.choice([1, 2, 3]))
            for v in xs:
                m *= v ** r.randint(0, 2)
            e += m
        return e

    fun = symfem.functions.parse_function_input(poly() if scalar else tuple(poly() for _ in range(t)))
    point = direction = entity = n = None
    if r.random() < 0.6:
        dim = r.randint(0, min(t, 2))
        entity = (dim, r.randrange(len(O.sub_entities(cell, dim)) if dim else len(ref.vertices)))
        sub = O.sub_entities(cell, dim)[entity[1]] if dim else [entity[1]]
        point = tuple(sum((ref.vertices[i][c] for i in sub), sympy.Integer(0)) / len(sub) for c in range(t))
        n = r.randint(0, 20)
        if t > 1 and r.random() < 0.5:
            direction = tuple(sympy.Integer(r.randint(1, 4)) for _ in range(t))
        if entity[0] > 1 and t == 3:
            entity = (1, 0)
    for scale in r.sample([sympy.Integer(1), sympy.Rational(1, 2), sympy.Integer(3)], 2):
        want = plot_shapes(fun, ref, f(scale), point, direction, entity, n)

        def make(fn, plot_options={}):
            fun.plot(ref, fn, point, direction, entity, n, scale, plot_options=plot_options)

        draw(ctx, f"function:{cell}:{'scalar' if scalar else 'vector'}", make, want, {}, comment_of({}))
