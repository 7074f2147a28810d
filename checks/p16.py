"""P16: the matrix cache survives crashes, corruption and concurrent processes."""

import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time

import sympy

from harness.core import Case

PROPERTY = "P16"
TECHNIQUE = "fault and schedule injection (crashes at every cache event and written byte, torn and damaged files, delayed racing processes) with a result monitor"
RULE = (
    "One case = one history of processes on one cache directory. Processes are forks that import symfem afresh; an audit hook and a "
    "byte-wise writer count every directory and file operation below the cache directory, and stop, delay or fail the process there. Every "
    "surviving and every later process must finish and report exactly the matrices computed without a cache. Distinct = crash point, "
    "damage or order of cache operations seen x element x query."
)
ASSUMPTIONS = [
    "what a stopped process has handed to the operating system is kept (no loss of the page cache)",
    "the file system has atomic rename and mkdir",
]
BUDGET = {"quick": 240, "thorough": 850}
CASE_LIMIT = {"quick": 140, "thorough": 500}
FLOOR = 1500

ITEMS = [
    ("interval", "P", 1, {}),
    ("interval", "P", 3, {"variant": "gll"}),
    ("triangle", "P", 1, {}),
    ("triangle", "P", 2, {}),
    ("triangle", "N1curl", 1, {}),
    ("triangle", "Morley", 2, {}),
    ("triangle", "HHJ", 0, {}),
    ("quadrilateral", "Q", 1, {}),
    ("quadrilateral", "serendipity", 2, {}),
    ("tetrahedron", "P", 1, {}),
    ("tetrahedron", "Regge", 0, {}),
    ("interval", "Hermite", 3, {}),
    ("triangle", "CR", 1, {}),
]


def cases(tier, seed):
    rng = random.Random(f"p16/{seed}")
    quick = tier == "quick"
    out = []

    def add(name, fn, args, cost, prio=5):
        out.append(Case(name, fn, [*args, rng.randint(0, 10**9)], cost, prio))

    for i in range(len(ITEMS)):
        add(f"damage/{i}", "damage", [i, 60 if quick else 500], 4)
    for n in range(16 if quick else 80):
        add(f"crash/{n}", "crash", [n], 12, 6)
    for n in range(8 if quick else 40):
        add(f"torn/{n}", "torn", [], 8, 6)
    for n in range(16 if quick else 120):
        add(f"race/{n}", "race", [n], 8, 7)
    for n in range(6 if quick else 30):
        add(f"full/{n}", "full", [], 6)
    for n in range(4 if quick else 20):
        add(f"startup/{n}", "startup", [n], 6, 7)
    return out


def make(i):
    import symfem

    cell, name, order, kw = ITEMS[i]
    return symfem.create_element(cell, name, order, **kw)


EXPECTED = {}


def expected(i, inverse):
    """The matrix without a cache."""
    if (i, inverse) not in EXPECTED:
        m = make(i).get_dual_matrix(caching=False)
        EXPECTED[i, inverse] = [str(x) for x in (sympy.Matrix(m).inv() if inverse else m)]
    return EXPECTED[i, inverse]


def agree(i, inverse, got):
    want = expected(i, inverse)
    try:
        return len(want) == len(got) and all(a == b or sympy.simplify(sympy.S(a) - sympy.S(b)) == 0 for a, b in zip(want, got))
    except (TypeError, sympy.SympifyError):
        return False


# Processes ------------------------------------------------------------------------------------------


class Plan:
    """What is done to one process: stop at the n-th event, stop after so many characters written, delays."""

    def __init__(self, stop_at=None, stop_after=None, delay=None, fsize=None, die=True, log=None, gate=None):
        self.stop_at, self.stop_after, self.delay, self.fsize, self.die = stop_at, stop_after, delay, fsize, die
        self.log, self.gate = log, gate


EVENTS = {
    "open",
    "os.mkdir",
    "os.rename",
    "os.remove",
    "os.link",
    "os.symlink",
    "os.rmdir",
    "os.truncate",
    "os.chmod",
    "shutil.move",
    "os.listdir",
    "os.scandir",
}


def instrument(root, plan, me):
    """Count, delay and stop at operations on paths below root, in this process."""
    import builtins
    import io

    r = random.Random(plan.delay if plan.delay is not None else 0)
    count = [0, 0]
    busy = [False]
    real = io.open
    log = os.open(plan.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT) if plan.log else None

    def point(what):
        count[0] += 1
        if log is not None:
            os.write(log, f"{me} {what}\n".encode())
        if plan.stop_at is not None and count[0] == plan.stop_at:
            os._exit(77)
        if plan.delay is not None and r.random() < 0.7:
            time.sleep(r.choice([0.0005, 0.002, 0.005, 0.02]))

    def below(path):
        try:
            if isinstance(path, int):
                path = os.readlink(f"/proc/self/fd/{path}")
            path = os.fspath(path)
            if isinstance(path, bytes):
                path = os.fsdecode(path)
            return os.path.abspath(path).startswith(root)
        except (TypeError, OSError, ValueError):
            return False

    def hook(event, args):
        if event in EVENTS and not busy[0] and args:
            busy[0] = True
            try:
                if below(args[0]):
                    point(event)
            finally:
                busy[0] = False

    class Slow:
        """A file that hands each character to the system at once."""

        def __init__(self, f):
            self.f = f

        def write(self, data):
            if len(data) > 4000 and plan.stop_after is None:
                return self.f.write(data)
            for k in range(len(data)):
                if plan.stop_after is not None and count[1] == plan.stop_after:
                    os._exit(77)
                self.f.write(data[k : k + 1])
                self.f.flush()
                count[1] += 1
                if plan.delay is not None and r.random() < 0.02:
                    time.sleep(r.choice([0.001, 0.004]))
            if plan.stop_after is not None and count[1] == plan.stop_after:
                os._exit(77)
            return len(data)

        def writelines(self, lines):
            for line in lines:
                self.write(line)

        def __enter__(self):
            self.f.__enter__()
            return self

        def __exit__(self, *a):
            busy[0] = True
            try:
                point("close")
            finally:
                busy[0] = False
            return self.f.__exit__(*a)

        def __getattr__(self, name):
            return getattr(self.f, name)

    def opener(file, mode="r", *args, **kw):
        f = real(file, mode, *args, **kw)
        if any(c in mode for c in "wax+") and below(file):
            return Slow(f)
        return f

    builtins.open = opener
    io.open = opener
    sys.addaudithook(hook)
    return count


def child(root, work, plan, result, me):
    """In a fork: a process that imports symfem afresh and does the work."""
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(60)
    code = 3
    try:
        for m in [m for m in sys.modules if m == "symfem" or m.startswith("symfem.")]:
            del sys.modules[m]
        sys.dont_write_bytecode = True
        os.environ["XDG_CACHE_HOME"] = root
        out = os.open(result, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        if plan.gate:
            while not os.path.exists(plan.gate):
                time.sleep(0.0005)
        count = instrument(root, plan, me)
        if plan.fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if plan.die else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (plan.fsize, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        try:
            answers = []
            import symfem  # noqa: F401

            for i, inverse in work:
                m = make(i).get_dual_matrix(inverse=inverse)
                answers.append([str(x) for x in m])
            data = {"ok": True, "answers": answers, "events": count[0], "chars": count[1]}
        except BaseException as e:
            import traceback

            data = {"ok": False, "error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-900:]}
        if plan.fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        os.write(out, json.dumps(data).encode())
        code = 0
    finally:
        os._exit(code)


def start(root, work, plan, result, me=0):
    import symfem  # noqa: F401  (so that its dependencies are loaded once, in the parent)

    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        child(root, work, plan, result, me)
    return pid


def finish(pid, result):
    """(exit code or -signal, what the process reported)"""
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    try:
        with open(result) as f:
            return code, json.load(f)
    except (OSError, ValueError):
        return code, None


def equal(a, b):
    if a.shape != b.shape:
        return False
    try:
        return all(x == y or sympy.simplify(x - y) == 0 for x, y in zip(list(a), list(b)))
    except TypeError:
        return False


class Scratch:
    def __init__(self, state="missing"):
        self.dir = tempfile.mkdtemp()
        self.root = os.path.join(self.dir, "cache")
        self.n = 0
        if state == "present":
            os.mkdir(self.root)
        elif state == "nested":
            self.root = os.path.join(self.dir, "a", "b", "cache")
        elif state == "file":
            os.mkdir(self.root)
            with open(os.path.join(self.root, "symfem"), "w") as f:
                f.write("not a directory\n")
        elif state == "empty":
            os.makedirs(os.path.join(self.root, "symfem"))

    def result(self):
        self.n += 1
        return os.path.join(self.dir, f"result{self.n}")

    def run(self, work, plan=None):
        res = self.result()
        return finish(start(self.root, work, plan or Plan(), res), res)

    def files(self):
        out = []
        for d, _, names in os.walk(self.root):
            out += [os.path.join(d, n) for n in names]
        return sorted(out)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def judge(ctx, what, key, work, code, data, may_die=False):
    """One process's outcome."""
    if may_die and code != 0:
        ctx.seen(f"{what}: stopped", key)
        return False
    ok = ctx.expect(
        code == 0 and data is not None and data["ok"], f"{what}: process finishes", f"a process fails ({what})",
        f"{key}: exit {code}, {data and data.get('error')} {data and data.get('trace')}", key=key,
    )  # fmt: skip
    if not ok:
        return False
    for (i, inverse), got in zip(work, data["answers"]):
        right = agree(i, inverse, got)
        ctx.expect(right, f"{what}: matrix", f"wrong matrix ({what})", f"{key}: {ITEMS[i]} inverse={inverse}: {got}", key=(key, i, inverse))
    return True


STATES = ["missing", "present", "nested", "file", "empty"]


def rand_work(r, n=3):
    return [(r.randrange(len(ITEMS)), r.random() < 0.5) for _ in range(n)]


def crash(ctx, n, seed):
    """A process stopped at its k-th cache operation, for every k; then others, on what it left."""
    r = random.Random(seed)
    state = STATES[n % len(STATES)]
    work = rand_work(r, 2)
    s = Scratch(state)
    try:
        code, data = s.run(work)
        judge(ctx, "undisturbed", (n, "first"), work, code, data)
        events = data["events"] if data and data.get("ok") else 0
    finally:
        s.close()
    ctx.seen("cache operations seen" if events else "no cache operations seen", n)
    for k in range(1, min(events, 30) + 1):
        s = Scratch(state)
        try:
            code, data = s.run(work, Plan(stop_at=k))
            judge(ctx, "stopped at an operation", (state, tuple(work), k), work, code, data, may_die=True)
            for step in range(2):
                code, data = s.run(work)
                judge(ctx, "after a crash at an operation", (state, tuple(work), k, step), work, code, data)
        finally:
            s.close()


def torn(ctx, seed):
    """A process stopped after every number of characters written."""
    r = random.Random(seed)
    state = r.choice(STATES)
    work = rand_work(r, 1)
    s = Scratch(state)
    try:
        code, data = s.run(work)
        if not judge(ctx, "undisturbed", (seed, "first"), work, code, data):
            return
        chars = data["chars"]
    finally:
        s.close()
    points = list(range(chars + 1))
    if len(points) > 40 and ctx.tier == "quick":
        points = sorted({0, 1, chars, chars - 1, chars - 2} | set(r.sample(points, 30)))
    for k in points:
        s = Scratch(state)
        try:
            code, data = s.run(work, Plan(stop_after=k))
            judge(ctx, "stopped while writing", (state, tuple(work), k), work, code, data, may_die=True)
            code, data = s.run(work)
            judge(ctx, "after a crash while writing", (state, tuple(work), k), work, code, data)
        finally:
            s.close()


def full(ctx, seed):
    """Files cannot grow beyond a limit: the process is ended by the system, or gets an error from write."""
    r = random.Random(seed)
    for size in [0, 1, r.randint(2, 20), r.randint(20, 64), 65, r.randint(66, 90), r.randint(90, 400)]:
        for die in (True, False):
            work = rand_work(r, 2)
            s = Scratch(r.choice(STATES))
            try:
                code, data = s.run(work, Plan(fsize=size, die=die))
                judge(ctx, "limited file size" if not die else "ended by the system", (size, tuple(work)), work, code, data, may_die=die)
                for step in range(2):
                    code, data = s.run(work)
                    judge(ctx, "after a failed write", (size, die, tuple(work), step), work, code, data)
            finally:
                s.close()


def startup(ctx, n, seed):
    """Many processes whose first act is to create the cache directory."""
    r = random.Random(seed)
    for state in STATES:
        race_once(ctx, r, state, 10, 1, kill=0, what="starting together")


def race(ctx, n, seed):
    """Processes working on the same elements at once, delayed at random cache operations, some stopped."""
    r = random.Random(seed)
    for _ in range(4):
        race_once(ctx, r, r.choice(STATES), r.choice([2, 3, 4, 6, 8]), r.choice([2, 3]), kill=r.choice([0, 0, 1, 2]), what="racing")


def race_once(ctx, r, state, procs, length, kill, what):
    s = Scratch(state)
    try:
        same = rand_work(r, length)
        gate = os.path.join(s.dir, "go")
        log = os.path.join(s.dir, "log")
        running = []
        for p in range(procs):
            work = list(same)
            if r.random() < 0.3:
                r.shuffle(work)
            plan = Plan(delay=r.randint(0, 10**9), log=log, gate=gate, stop_at=r.randint(1, 14) if p < kill else None)
            res = s.result()
            running.append((start(s.root, work, plan, res, p), res, work, p < kill))
        time.sleep(0.02)
        with open(gate, "w"):
            pass
        outcomes = [(finish(pid, res), work, killed) for pid, res, work, killed in running]
        try:
            with open(log) as f:
                order = f.read()
        except OSError:
            order = ""
        renamed = {}
        trace = " ".join(renamed.setdefault(line.split()[0], chr(97 + len(renamed))) + ":" + line.split()[1] for line in order.splitlines())
        ctx.seen("orders of cache operations", trace)
        ctx.seen("cache operations", trace, len(order.splitlines()))
        for (code, data), work, killed in outcomes:
            judge(ctx, what, (state, trace, tuple(work)), work, code, data, may_die=killed)
        code, data = s.run(same)
        judge(ctx, f"after {what}", (state, trace), same, code, data)
    finally:
        s.close()


# Damaged files ----------------------------------------------------------------------------------------


def damaged(r, content):
    """(what was done, new content)"""
    kind = r.choice(
        [
            "cut",
            "cut",
            "cut",
            "cut",
            "empty",
            "noise",
            "nul",
            "text",
            "double",
            "flip",
            "flip",
            "digit",
            "insert",
            "delete",
            "prefix",
            "lines",
            "binary",
            "long",
        ]
    )
    n = len(content)
    if kind == "cut":
        k = r.randrange(n)
        return f"cut at {k} of {n}", content[:k]
    if kind == "empty":
        return kind, b""
    if kind == "noise":
        return kind, bytes(r.randrange(256) for _ in range(r.choice([1, 10, n, 3 * n])))
    if kind == "nul":
        k = r.randrange(n)
        return f"NULs from {k}", content[:k] + b"\0" * (n - k)
    if kind == "text":
        return kind, r.choice(
            [
                b"hello world",
                b"1;2;3",
                b"1,2,3;4,5,6;7,8,9",
                b"0",
                b";;;",
                b",,,",
                b"\n",
                b"x,y;z,w",
                b"1,2;3",
                b"1/0",
                b"nan",
                b"__import__('os')",
                b"(",
                b"lambda: 0",
                b"None",
            ]
        )
    if kind == "double":
        return kind, content + content
    if kind == "flip":
        k = r.randrange(n)
        return f"bit flip at {k}", content[:k] + bytes([content[k] ^ (1 << r.randrange(8))]) + content[k + 1 :]
    if kind == "digit":
        places = [k for k in range(n) if 48 <= content[k] <= 57]
        k = r.choice(places or [0])
        return f"digit at {k}", content[:k] + bytes([48 + (content[k] - 48 + r.randint(1, 9)) % 10]) + content[k + 1 :]
    if kind == "insert":
        k = r.randrange(n + 1)
        return f"insertion at {k}", content[:k] + r.choice([b"1", b",", b";", b"-", b" 7", b"\xff", b"x"]) + content[k:]
    if kind == "delete":
        k = r.randrange(n)
        return f"deletion at {k}", content[:k] + content[k + 1 :]
    if kind == "prefix":
        return kind, content[r.randrange(n) + 1 :]
    if kind == "lines":
        return kind, b"\n".join(reversed(content.split(b"\n"))) if b"\n" in content else content[::-1]
    if kind == "binary":
        return kind, b"\x89PNG\r\n\x1a\n" + content
    return kind, b"9" * 20000


def damage(ctx, i, count, seed):
    """In this process: the files one element leaves in the cache, damaged; then fresh elements."""
    import symfem

    r = random.Random(seed)
    root = os.environ["XDG_CACHE_HOME"]

    def files():
        return {os.path.join(d, n) for d, _, names in os.walk(root) for n in names}

    # a cell nobody else uses, so that the files are this case's own
    cell, name, order, kw = ITEMS[i]
    try:
        ref = symfem.create_reference(cell)
        scale = sympy.Rational(seed % 1000 + 2, 7)
        vs = tuple(tuple(scale * c for c in v) for v in ref.vertices)
        symfem.create_element(cell, name, order, vertices=vs, **kw)
    except Exception as e:
        if type(e).__name__ != "NonDefaultReferenceError":
            raise
        vs = None

    def element():
        return symfem.create_element(cell, name, order, vertices=vs, **kw) if vs else symfem.create_element(cell, name, order, **kw)

    plain = element().get_dual_matrix(caching=False)
    want = {False: plain, True: sympy.Matrix(plain).inv()}
    before = files()
    if vs is None:
        for f in before:
            os.remove(f)
        before = set()
    element().get_dual_matrix()
    element().get_dual_matrix(inverse=True)
    mine = sorted(files() - before)
    ctx.seen("cache files" if mine else "no cache files", i)
    if not mine:
        return

    def right(what, key):
        for inverse in (False, True):
            try:
                got = element().get_dual_matrix(inverse=inverse)
            except Exception as e:
                ctx.violate("a damaged cache file makes a computation fail", f"{ITEMS[i]}: {what}: {type(e).__name__}: {e}")
                continue
            ctx.expect(
                equal(got, want[inverse]),
                "matrix from a damaged cache", "a damaged cache file gives a wrong matrix", f"{ITEMS[i]}: {what}: {got}", key=key,
            )  # fmt: skip

    pristine = {}
    for f in mine:
        with open(f, "rb") as g:
            pristine[f] = g.read()
    for n in range(count):
        f = r.choice(mine)
        what, new = damaged(r, pristine[f]) if pristine[f] else ("noise", b"noise")
        if new == pristine[f]:
            continue
        with open(f, "wb") as g:
            g.write(new)
        right(what, (i, what))
        # what the computation left must serve the next one
        if n % 5 == 0:
            right(what + ", asked again", (i, what, "again"))
        with open(f, "wb") as g:
            g.write(pristine[f])
    for f in mine:
        for what in ("swapped", "directory", "dangling link", "loop", "removed"):
            if what == "swapped":
                if len(mine) < 2:
                    continue
                other = r.choice([g for g in mine if g != f])
                # half of one, half of the other
                with open(f, "wb") as g:
                    g.write(pristine[f][: len(pristine[f]) // 2] + pristine[other][len(pristine[other]) // 2 :])
            else:
                os.remove(f)
                if what == "directory":
                    os.mkdir(f)
                elif what == "dangling link":
                    os.symlink(os.path.join(root, "nowhere", "at all"), f)
                elif what == "loop":
                    os.symlink(f, f)
            right(what, (i, what))
            if os.path.islink(f) or os.path.isfile(f):
                os.remove(f)
            elif os.path.isdir(f):
                os.rmdir(f)
            with open(f, "wb") as g:
                g.write(pristine[f])
    right("restored", (i, "restored"))
