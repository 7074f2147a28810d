"""A reader of mathematical TeX: parses what symfem writes and evaluates its mathematical meaning.

Scalars are numbers (oracle numbers) or oracle Polys in the six variables x, y, z, t0, t1, t2.
Other values: ("col", [..]), ("row", [..]), ("mat", [[..]]).
"""

import re

from harness import oracle as O
from harness.fem import OutOfModel
from harness.oracle import F0, F1, Poly


class Bad(Exception):
    """Not well-formed, or without a mathematical meaning."""


TOKEN = re.compile(r"\s+|\\\\|\\[a-zA-Z]+|\\.|[0-9]+(?:\.[0-9]*)?|\.[0-9]+|[a-zA-Z]|.", re.S)
SPACING = {"\\displaystyle", "\\,", "\\ ", "\\!", "\\;", "\\quad", "\\textstyle"}
OPEN = {"\\left(": "\\right)", "(": ")"}


def balanced(s):
    """Are braces, \\left/\\right and environments properly nested?"""
    stack = []
    toks = TOKEN.findall(s)
    i = 0
    while i < len(toks):
        t = toks[i]
        if t == "{":
            stack.append("{")
        elif t == "}":
            if not stack or stack.pop() != "{":
                return False
        elif t in ("\\left", "\\right"):
            j = i + 1
            while j < len(toks) and toks[j].isspace():
                j += 1
            if j == len(toks):
                return False
            if t == "\\left":
                stack.append("left")
            elif not stack or stack.pop() != "left":
                return False
            i = j
        elif t in ("\\begin", "\\end"):
            m = re.match(r"\{([a-z*]+)\}", "".join(toks[i + 1 :]))
            if not m:
                return False
            if t == "\\begin":
                stack.append("env:" + m.group(1))
            elif not stack or stack.pop() != "env:" + m.group(1):
                return False
        i += 1
    return not stack


def lex(s):
    return [t for t in TOKEN.findall(s) if not t.isspace() and t not in SPACING]


class P:
    """Recursive descent parser -> AST of tuples."""

    def __init__(self, s):
        self.s = s
        self.t = lex(s)
        self.i = 0

    # -- tokens
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Bad(f"unexpected end of {self.s!r}")
        self.i += 1
        return self.t[self.i - 1]

    def take(self, *toks):
        if self.t[self.i : self.i + len(toks)] == list(toks):
            self.i += len(toks)
            return True
        return False

    def need(self, *toks):
        if not self.take(*toks):
            raise Bad(f"expected {''.join(toks)} at {''.join(self.t[self.i : self.i + 12])!r}")

    def group(self):
        """The raw text of {..} or of a single token."""
        if not self.take("{"):
            return self.next()
        depth, out = 1, []
        while True:
            t = self.next()
            depth += (t == "{") - (t == "}")
            if depth == 0:
                return "".join(out)
            out.append(t + " " if re.fullmatch(r"\\[a-zA-Z]+", t) else t)

    def arg(self):
        """A TeX argument: {expression} or one token."""
        if self.take("{"):
            e = self.expr()
            self.need("}")
            return e
        t = self.next()
        if t.isdigit() and len(t) > 1:  # TeX takes one digit only
            self.i -= 1
            self.t[self.i] = t[1:]
            t = t[0]
        return P(t).expr()

    def done(self):
        return self.i >= len(self.t)

    # -- grammar
    def expr(self):
        neg = False
        while self.peek() in ("-", "+"):
            neg ^= self.next() == "-"
        e = self.term()
        if neg:
            e = ("neg", e)
        while self.peek() in ("+", "-"):
            op = self.next()
            f = self.term()
            e = ("add", e, f if op == "+" else ("neg", f))
        return e

    def term(self):
        e = self.jux()
        while self.peek() in ("\\cdot", ":", "\\times"):
            op = self.next()
            f = self.jux()
            e = ("ddot" if op == ":" else "dot", e, f)
        return e

    STOP = {None, "+", "-", "\\cdot", ":", "\\times", "}", ")", "\\right", "&", "\\\\", "\\end", ",",
            "=", "|", "]"}  # fmt: skip

    def jux(self):
        e = self.factor()
        while self.peek() not in self.STOP or (self.peek() == "|" and self.peek(1) == "{"):
            f = self.factor()
            e = ("mul", e, f)
        return e

    def factor(self):
        return self.post(self.primary())

    def post(self, e):
        while True:
            if self.take("^"):
                if self.take("{", "\\text", "{", "t", "}", "}") or self.take("{", "T", "}"):
                    e = ("T", e)
                    if e[1][0] == "unit" and e[1][2] is None:  # \hat{n}^{\text{t}}_{0}
                        e = ("T", ("unit", e[1][1], self.sub()))
                    continue
                e = ("pow", e, self.arg())
            elif self.peek() == "'" and _field(e):
                k = 0
                while self.take("'"):
                    k += 1
                e = ("prime", e, k)
            elif self.peek() == "(" and _field(e):
                self.next()
                pts = [self.expr()]
                while self.take(","):
                    pts.append(self.expr())
                self.need(")")
                e = ("at", e, pts)
            else:
                return e

    def sub(self):
        self.need("_")
        s = self.group().strip()
        if not re.fullmatch(r"\d+", s):
            raise Bad(f"subscript {s!r}")
        return int(s)

    def primary(self):
        t = self.next()
        if re.fullmatch(r"[0-9]+\.?[0-9]*|\.[0-9]+", t):
            return ("num", O.Fraction(t) if "." not in t else O.Fraction(t if t[-1] != "." else t[:-1]))
        if t in ("\\frac", "\\tfrac", "\\dfrac"):
            if self.peek() == "{" and self.peek(1) == "\\partial":
                return self.derivative()
            a = self.arg()
            return ("frac", a, self.arg())
        if t == "\\sqrt":
            n = ("num", O.Fraction(2))
            if self.take("["):
                n = self.expr()
                self.need("]")
            return ("root", self.arg(), n)
        if t == "{":
            e = self.expr()
            self.need("}")
            return e
        if t == "(":
            e = self.expr()
            self.need(")")
            return e
        if t == "\\left":
            d = self.next()
            if d == "(":
                if self.peek() == "\\begin":
                    e = self.array()
                else:
                    e = self.expr()
                self.need("\\right", ")")
                return e
            if d == "|":
                e = self.expr()
                self.need("\\right", "|")
                return ("abs", e)
            raise Bad(f"\\left{d}")
        if t == "|":
            e = self.entity_or_expr()
            self.need("|")
            return e
        if t in ("\\sin", "\\cos", "\\exp", "\\log"):
            k = None
            if self.take("^"):
                k = self.arg()
            a = self.factor()
            e = ("fn", t[1:], a)
            return e if k is None else ("pow", e, k)
        if t == "\\pi":
            return ("pi",)
        if t in ("\\boldsymbol", "\\mathbf"):
            return ("v", f"{t}{{{self.group().strip()}}}")
        if t == "\\hat":
            g = self.group().replace(" ", "")
            m = re.fullmatch(r"\\boldsymbol\{([nt])\}", g)
            if not m:
                raise Bad(f"\\hat{{{g}}}")
            if self.peek() == "_":
                return ("unit", m.group(1), self.sub())
            return ("unit", m.group(1), None)
        if t == "\\nabla":
            if self.take("\\cdot"):
                return self.at(("div", self.primary()))
            return self.at(("grad", self.primary()))
        if t == "\\int":
            self.need("_")
            ent = self.group().strip()
            return ("int", ent, self.term())
        if t in ("v", "V"):
            if self.peek() == "_":
                raise Bad("subscripted function")
            return ("v", t)
        if t == "t" and self.peek() == "_":
            return ("sym", f"t{self.sub()}")
        if t in "xyz":
            if self.peek() == "_":
                raise Bad(f"{t}_")
            return ("sym", t)
        if t == "e" and self.peek() != "_":
            return ("e",)
        raise Bad(f"unexpected {t!r} in {self.s!r}")

    def at(self, e):
        if self.peek() == "(":
            return self.post(e)
        return e

    def entity_or_expr(self):
        j = self.i
        g = self.group().strip() if self.peek() == "{" else None
        if g and re.fullmatch(r"R|[vefc]_\{\d+\}", g.replace(" ", "")):
            return ("meas", g)
        self.i = j
        return ("abs", self.expr())

    def derivative(self):
        """The operator d^k[f]/d...; its operand follows if it is not in the numerator."""
        self.need("{", "\\partial")
        k = 1
        if self.take("^"):
            k = _int(self.arg())
        operand = None
        if self.peek() != "}":
            operand = self.primary()
        self.need("}", "{")
        by = []
        while self.take("\\partial"):
            d = self.primary()
            n = 1
            if self.take("^"):
                n = _int(self.arg())
            by.append((d, n))
        self.need("}")
        if sum(n for _, n in by) != k:
            raise Bad("orders of a derivative do not add up")
        if operand is None:
            operand = self.primary()
        e = ("pd", operand, by)
        return self.at(e)

    def array(self):
        self.need("\\begin", "{", *"array", "}", "{")
        n = 0
        while self.take("c"):
            n += 1
        self.need("}")
        rows = [[]]
        while True:
            rows[-1].append(self.expr())
            t = self.next()
            if t == "&":
                continue
            if t == "\\\\":
                rows.append([])
                continue
            if t == "\\end":
                self.need("{", *"array", "}")
                break
            raise Bad(f"{t!r} in an array")
        if any(len(r) != n for r in rows):
            raise Bad("ragged array")
        return ("arr", rows)

    def cases(self):
        """cases environment -> [(ast, shape name, vertices)]"""
        self.need("\\begin", "{", *"cases", "}")
        out = []
        while True:
            e = self.expr()
            self.need("&", "\\text", "{", *"in", "}")
            self.need("\\operatorname")
            name = self.group().strip()
            out.append((e, name, self.tuple_()))
            t = self.next()
            if t == "\\\\":
                continue
            if t == "\\end":
                self.need("{", *"cases", "}")
                return out
            raise Bad(f"{t!r} in cases")

    def tuple_(self):
        """(a, b, ..) nested -> nested lists; a redundant pair of brackets is a tuple of one."""
        self.need("(")
        out = []
        while True:
            if self.peek() == "(":
                out.append(self.tuple_())
            elif self.peek() == ")":
                self.next()
                return out
            else:
                out.append(ev(self.slashes(), {}))
            if self.take(","):
                continue
            self.need(")")
            return out

    def slashes(self):
        e = self.expr()
        while self.take("/"):
            e = ("frac", e, self.factor())
        return e


P.STOP = P.STOP | {"/"}


def _int(e):
    if e[0] == "num" and e[1].denominator == 1:
        return int(e[1])
    raise Bad("order of a derivative")


def _field(e):
    return e[0] in ("v", "grad", "div", "pd", "prime")


def parse(s):
    p = P(s)
    e = p.expr()
    if not p.done():
        raise Bad(f"cannot read {''.join(p.t[p.i :])!r} of {s!r}")
    return e


def symbols(e, out=None):
    """Names of entities, unit vectors and function symbols in an AST."""
    out = set() if out is None else out
    if isinstance(e, tuple) and e and isinstance(e[0], str):
        if e[0] in ("int", "meas"):
            out.add(("ent", e[1].replace(" ", "")))
        if e[0] == "unit":
            out.add(("unit", e[1], e[2]))
        if e[0] == "v":
            out.add(("v", e[1]))
    if isinstance(e, (tuple, list)):
        for i in e:
            symbols(i, out)
    return out


# -- evaluation --------------------------------------------------------------------------------------
def _s(v):
    if isinstance(v, tuple):
        raise Bad("scalar expected")
    return v


def _const(v):
    v = _s(v)
    if isinstance(v, Poly):
        v = v.clean()
        if any(any(k) for k in v.c):
            raise Bad("constant expected")
        return v.c.get((0,) * v.n, F0)
    return v


def sadd(a, b):
    if isinstance(a, Poly):
        return a + b
    if isinstance(b, Poly):
        return b + a
    return O.add(a, b)


def smul(a, b):
    if isinstance(a, Poly):
        return a * b
    if isinstance(b, Poly):
        return b * a
    return O.mul(a, b)


def _map(v, f):
    if not isinstance(v, tuple):
        return f(v)
    if v[0] == "mat":
        return ("mat", [[f(i) for i in r] for r in v[1]])
    return (v[0], [f(i) for i in v[1]])


def _sum(it):
    r = F0
    for i in it:
        r = sadd(r, i)
    return r


def _kind(v):
    return v[0] if isinstance(v, tuple) else "s"


def vmul(a, b):
    ka, kb = _kind(a), _kind(b)
    if ka == "s":
        return _map(b, lambda i: smul(a, i))
    if kb == "s":
        return _map(a, lambda i: smul(i, b))
    if ka == "row" and kb == "col" and len(a[1]) == len(b[1]):
        return _sum(smul(i, j) for i, j in zip(a[1], b[1]))
    if ka == "row" and kb == "mat" and len(a[1]) == len(b[1]):
        return ("row", [_sum(smul(i, r[j]) for i, r in zip(a[1], b[1])) for j in range(len(b[1][0]))])
    if ka == "mat" and kb == "col" and len(a[1][0]) == len(b[1]):
        return ("col", [_sum(smul(i, j) for i, j in zip(r, b[1])) for r in a[1]])
    raise Bad(f"product of {ka} and {kb}")


def vadd(a, b):
    if _kind(a) != _kind(b):
        raise Bad("sum of different types")
    if _kind(a) == "s":
        return sadd(a, b)
    if len(a[1]) != len(b[1]):
        raise Bad("sum of different sizes")
    if a[0] == "mat":
        return ("mat", [[sadd(i, j) for i, j in zip(r, q)] for r, q in zip(a[1], b[1])])
    return (a[0], [sadd(i, j) for i, j in zip(a[1], b[1])])


def from_comps(f):
    """nested lists of Poly/number -> value"""
    if not isinstance(f, list):
        return f
    if f and isinstance(f[0], list):
        return ("mat", f)
    return ("col", f)


def numbers(v):
    """value -> nested lists of numbers"""
    if not isinstance(v, tuple):
        return _const(v)
    if v[0] == "mat":
        return [[_const(i) for i in r] for r in v[1]]
    return [_const(i) for i in v[1]]


def ev(e, env):
    """env: symbol values, 'v' (the function), 'cell' (fem.Cell), 'ents' {symbol: (dim, n)},
    'units' {(n|t, k): vector}, 'gdim'."""
    op = e[0]
    if op == "num":
        return e[1]
    if op == "sym":
        if e[1] not in env:
            raise Bad(f"unknown symbol {e[1]}")
        return env[e[1]]
    if op == "pi":
        return O.tomp(O.ev(__import__("sympy").pi, {}))
    if op == "e":
        return O.tomp(O.ev(__import__("sympy").E, {}))
    if op == "neg":
        return vmul(-F1, ev(e[1], env))
    if op == "add":
        return vadd(ev(e[1], env), ev(e[2], env))
    if op == "mul":
        return vmul(ev(e[1], env), ev(e[2], env))
    if op in ("dot", "ddot"):
        a, b = ev(e[1], env), ev(e[2], env)
        ka, kb = _kind(a), _kind(b)
        if op == "dot":
            if ka == kb == "col" and len(a[1]) == len(b[1]):
                return _sum(smul(i, j) for i, j in zip(a[1], b[1]))
            if ka == "s" or kb == "s":
                return vmul(a, b)
            raise Bad(f"dot product of {ka} and {kb}")
        if ka == kb == "mat" and len(a[1]) == len(b[1]) and len(a[1][0]) == len(b[1][0]):
            return _sum(smul(i, j) for r, q in zip(a[1], b[1]) for i, j in zip(r, q))
        raise Bad(f"double contraction of {ka} and {kb}")
    if op == "frac":
        a, b = ev(e[1], env), _s(ev(e[2], env))
        try:
            b = _const(b)
        except Bad:
            raise OutOfModel("division by a polynomial")
        inv = O.div(F1, b)
        return vmul(a, inv)
    if op == "pow":
        a, b = _s(ev(e[1], env)), _const(ev(e[2], env))
        if isinstance(a, Poly):
            if b.denominator == 1 and b >= 0:
                return a ** int(b)
            a = _const(a)
        return O.power(a, b)
    if op == "root":
        return O.power(_const(ev(e[1], env)), O.div(F1, _const(ev(e[2], env))))
    if op == "abs":
        v = _const(ev(e[1], env))
        return abs(v)
    if op == "fn":
        import sympy

        z = sympy.Symbol("z")
        return O.ev(getattr(sympy, e[1])(z), {"z": _const(ev(e[2], env))})
    if op == "arr":
        rows = [[_s(ev(i, env)) for i in r] for r in e[1]]
        if len(rows[0]) == 1:
            return ("col", [r[0] for r in rows])
        return ("mat", rows)
    if op == "T":
        v = ev(e[1], env)
        k = _kind(v)
        if k == "col":
            return ("row", v[1])
        if k == "row":
            return ("col", v[1])
        if k == "mat":
            return ("mat", [list(r) for r in zip(*v[1])])
        raise Bad("transpose of a scalar")
    if op == "unit":
        if (e[1], e[2]) not in env["units"]:
            raise Bad(f"undefined \\hat{{{e[1]}}}_{e[2]}")
        return ("col", list(env["units"][e[1], e[2]]))
    if op == "v":
        return env["v"]
    n = env.get("gdim")
    if op == "grad":
        v = _s(ev(e[1], env))
        return ("col", [v.diff(i) for i in range(n)])
    if op == "div":
        v = ev(e[1], env)
        if _kind(v) != "col" or len(v[1]) != n:
            raise Bad("divergence of a non-vector")
        return _sum(c.diff(i) for i, c in enumerate(v[1]))
    if op == "prime":
        if n != 1:
            raise Bad("prime in more than one dimension")
        v = _s(ev(e[1], env))
        for _ in range(e[2]):
            v = v.diff(0)
        return v
    if op == "pd":
        v = ev(e[1], env)
        for d, k in e[2]:
            if d[0] == "sym" and d[1] in "xyz":
                i = "xyz".index(d[1])
                if i >= n:
                    raise Bad(f"derivative by {d[1]} in {n}D")
                dirs = [F1 if j == i else F0 for j in range(n)]
            else:
                w = ev(d, env)
                if _kind(w) != "col" or len(w[1]) != n:
                    raise Bad("direction of a derivative")
                dirs = [_const(i) for i in w[1]]
            for _ in range(k):
                v = _map(v, lambda c: _sum(c.diff(j) * a for j, a in enumerate(dirs)))
        return v
    if op == "at":
        v = ev(e[1], env)
        pts = [_const(ev(p, env)) for p in e[2]]
        if len(pts) != n:
            raise Bad(f"point with {len(pts)} coordinates in {n}D")
        full = pts + [F0] * (6 - len(pts))
        return _map(v, lambda c: c(full) if isinstance(c, Poly) else c)
    if op == "meas":
        s = _entity(e[1], env)
        return O.mul(s.meas, O.VOLUME[s.name])
    if op == "int":
        s = _entity(e[1], env)
        m = s.tdim
        p = _s(ev(e[2], env))
        if not isinstance(p, Poly):
            p = Poly.const(6, p)
        phys = s.polys()
        phys = phys + [Poly(m)] * (3 - len(phys))
        loc = [Poly.var(m, i) for i in range(m)]
        used = {i for k in p.clean().c for i in range(3, 6) if k[i]}
        if any(i - 3 >= m for i in used):
            raise Bad("more local coordinates than the entity has")
        q = p.compose(phys + loc + [Poly(m)] * (3 - m))
        return O.mul(O.integrate_ref(q, s.name), s.meas)
    raise Bad(f"no meaning: {op}")


def _entity(sym, env):
    k = sym.replace(" ", "")
    if k not in env["ents"]:
        raise Bad(f"undefined entity {k}")
    return env["cell"].sub(*env["ents"][k])


# -- definitions ---------------------------------------------------------------------------------------
def ordinal(n):
    if 10 <= n % 100 <= 20:
        return f"{n}th"
    return f"{n}" + {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th")


DIMS = {"vertex": 0, "edge": 1, "face": 2, "volume": 3}


def definitions(terms, cell):
    """Terms -> (ents, units); raises Bad for a term that cannot be read or is defined twice."""
    ents, units = {}, {}
    for s in terms:
        m = re.fullmatch(r"\\\((.*)\\\) is the (.*)", s)
        if not m or not balanced(m.group(1)):
            raise Bad(f"term {s!r}")
        sym, what = m.group(1).replace(" ", ""), m.group(2)
        u = re.fullmatch(r"\\hat\{\\boldsymbol\{([nt])\}\}_\{(\d+)\}", sym)
        if what == "reference element":
            new = (cell.tdim, 0)
        elif u:
            k = re.fullmatch(r"(normal to facet|tangent to edge) (\d+)", what)
            if not k or (k.group(1)[0] == "n") != (u.group(1) == "n"):
                raise Bad(f"term {s!r}")
            dim, n = (cell.tdim - 1 if u.group(1) == "n" else 1), int(k.group(2))
            if n >= len(O.sub_entities(cell.name, dim)):
                raise Bad(f"no such facet: {s!r}")
            sub = cell.sub(dim, n)
            key = (u.group(1), int(u.group(2)))
            if key in units:
                raise Bad(f"{sym} defined twice")
            units[key] = sub.normal() if u.group(1) == "n" else sub.tangent()
            continue
        else:
            k = re.fullmatch(r"(\d+)(st|nd|rd|th) (vertex|edge|face|volume)", what)
            if not k:
                raise Bad(f"term {s!r}")
            n = int(k.group(1))
            if ordinal(n) != k.group(1) + k.group(2):
                raise Bad(f"ordinal {k.group(1) + k.group(2)}")
            new = (DIMS[k.group(3)], n)
            if new[0] > cell.tdim or n >= len(O.sub_entities(cell.name, new[0])):
                raise Bad(f"no such entity: {s!r}")
        if sym in ents:
            raise Bad(f"{sym} defined twice")
        ents[sym] = new
    return ents, units
