"""Runner shared by every check.

A check is a module in /verif/checks with

    PROPERTY   the property id
    RULE       how cases are made and what makes one non-trivial (goes to the evidence)
    cases(tier, seed) -> list of Case   (plain data, made WITHOUT importing symfem)

The parent process never imports symfem.  Every worker process gets its own empty
XDG_CACHE_HOME, imports symfem from /repo's working tree (byte code is cached in a scratch
folder only) and runs cases it is handed.  A case function receives a Ctx: the monitors report what
they observed through it.  Verdicts are three-valued: violation (exit 1), held (exit 0),
inconclusive (exit 2: too few observations, harness error).
"""

import argparse
import fnmatch
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

from harness import oracle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")


class Case:
    """One unit of work: `fn` (name of a function in the check module) applied to `args`."""

    __slots__ = ("name", "fn", "args", "cost", "prio", "limit")

    def __init__(self, name, fn, args=(), cost=1.0, prio=5, limit=None):
        self.name, self.fn, self.args = name, fn, list(args)
        self.cost, self.prio, self.limit = cost, prio, limit

    def data(self):
        return {"name": self.name, "fn": self.fn, "args": self.args}


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """Raised by a case: this input is outside the property's domain."""


class Ctx:
    """What one case observed."""

    def __init__(self, case, seed, tier):
        self.case, self.seed, self.tier = case, seed, tier
        self.events = Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.skips = Counter()
        self.rng = random.Random(f"{seed}/{case.name}")

    # -- observations ---------------------------------------------------------------------
    def seen(self, kind, key=None, n=1):
        """A monitor evaluated its oracle `n` times on events of this kind."""
        self.events[kind] += n
        if key is not None:
            self.distinct.add(f"{kind}|{key}")

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def skip(self, why):
        self.skips[why] += 1

    def violate(self, mechanism, message, **detail):
        """Report a violation.  `mechanism` is what known findings are matched against."""
        if len(self.violations) < 40:
            self.violations.append(
                {
                    "mechanism": mechanism,
                    "message": message,
                    "detail": {k: repr(v)[:600] for k, v in detail.items()},
                }
            )

    def expect(self, cond, kind, mechanism, message="", key=None, **detail):
        self.seen(kind, key)
        if not cond:
            self.violate(mechanism, message or kind, **detail)
        return cond


def raised_in_symfem(tb):
    """Did this exception come out of symfem (as opposed to from the harness itself)?"""
    frames = traceback.extract_tb(tb)
    root = os.path.join(REPO, "symfem") + os.sep
    harness = VERIF + os.sep
    last = None
    for f in frames:
        p = os.path.abspath(f.filename)
        if p.startswith(root):
            last = "symfem"
        elif p.startswith(harness):
            last = "harness"
    return last == "symfem"


def import_symfem():
    """Import symfem from the working tree with a private, empty cache."""
    sys.path.insert(0, REPO)
    import symfem

    assert os.path.abspath(symfem.__file__).startswith(os.path.abspath(REPO) + os.sep), symfem.__file__
    return symfem


def run_case(mod, case, seed, tier, limit):
    ctx = Ctx(case, seed, tier)
    t0 = time.time()
    status = "ok"

    def on_alarm(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, max(limit, 1))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            getattr(mod, case.fn)(ctx, *case.args)
    except CaseTimeout:
        status = "timeout"
    except Skip as e:
        ctx.skip(str(e))
        status = "skip"
    except oracle.NotAValue as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.violate(f"not a value:{case.name}", str(e)[:200], traceback=traceback.format_exc()[-3000:])
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        txt = traceback.format_exc()[-3000:]
        if raised_in_symfem(e.__traceback__):
            ctx.violate(
                f"exception:{case.name}:{type(e).__name__}",
                f"symfem raised {type(e).__name__}: {str(e)[:200]}",
                traceback=txt,
            )
        else:
            status = "error: " + txt
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {
        "name": case.name,
        "status": status,
        "wall": round(time.time() - t0, 2),
        "events": dict(ctx.events),
        "distinct": sorted(ctx.distinct),
        "samples": ctx.samples,
        "violations": ctx.violations,
        "skips": dict(ctx.skips),
        "case": case.data(),
    }


def worker(modname, conn, seed, tier, scratch, wid):
    cache = os.path.join(scratch, f"cache-{wid}")
    os.makedirs(cache, exist_ok=True)
    os.environ["XDG_CACHE_HOME"] = cache
    work = os.path.join(scratch, f"cwd-{wid}")
    os.makedirs(work, exist_ok=True)
    os.chdir(work)
    sys.setrecursionlimit(20000)
    if os.environ.get("VERIF_COV"):
        from harness import lines

        lines.install(os.environ["VERIF_COV"], os.path.join(REPO, "symfem") + os.sep)
    try:
        import_symfem()
        mod = importlib.import_module(modname)
        if hasattr(mod, "worker_init"):
            mod.worker_init()
        conn.send(("ready", None))
    except BaseException:
        conn.send(("initfail", traceback.format_exc()))
        return
    while True:
        msg = conn.recv()
        if msg is None:
            break
        case, limit = msg
        conn.send(("done", run_case(mod, case, seed, tier, limit)))
    conn.close()


def load_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.isfile(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def execute(modname, todo, seed, tier, budget, jobs, scratch, default_limit, verbose=False):
    """Run the cases in `jobs` workers until done or out of budget."""
    import multiprocessing as mp
    from multiprocessing.connection import wait

    fork = mp.get_context("fork")
    t0 = time.time()
    workers = {}
    results, initfails = [], []
    wid = 0

    def start():
        nonlocal wid
        a, b = fork.Pipe()
        p = fork.Process(target=worker, args=(modname, b, seed, tier, scratch, wid), daemon=False)
        wid += 1
        p.start()
        b.close()
        workers[a] = [p, None, 0, wid]
        return a

    queue = list(todo)
    for _ in range(max(1, min(jobs, len(queue)))):
        start()
    unfinished = 0
    while workers:
        left = budget - (time.time() - t0)
        if left <= 0:
            break
        for conn in wait(list(workers), timeout=min(left, 5)):
            info = workers[conn]
            try:
                kind, val = conn.recv()
            except (EOFError, ConnectionResetError):
                info[0].join(5)
                del workers[conn]
                if info[1] is not None:
                    results.append(
                        {
                            "name": info[1].name,
                            "status": f"error: worker died (exit {info[0].exitcode})",
                            "wall": 0,
                            "events": {},
                            "distinct": [],
                            "samples": [],
                            "violations": [],
                            "skips": {},
                            "case": info[1].data(),
                        }
                    )
                    start()
                continue
            if kind == "initfail":
                initfails.append(val)
                del workers[conn]
                continue
            if kind == "done":
                if verbose:
                    print(f"{val['wall']:8.2f} {val['status'][:40]:10s} {val['name']}", flush=True)
                results.append(val)
                info[1] = None
            if queue:
                # most take the longest first; some work from the cheap end, so that a slow machine still sees every kind
                case = queue.pop(-1 if info[3] % 4 == 3 else 0)
                info[1] = case
                left = budget - (time.time() - t0)
                try:
                    conn.send((case, min(case.limit or default_limit, max(left, 1))))
                except BrokenPipeError:
                    queue.insert(0, case)
                    info[1] = None
                    del workers[conn]
            else:
                try:
                    conn.send(None)
                except BrokenPipeError:
                    pass
                info[0].join(10)
                del workers[conn]
    for conn, info in list(workers.items()):
        if info[1] is not None:
            unfinished += 1
        try:
            info[0].kill()
            info[0].join(5)
        except Exception:
            pass
    return results, unfinished, len(queue), initfails


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="glob on case names")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    modname = f"checks.{a.property.lower()}"
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(modname)
    t0 = time.time()
    scratch = os.environ["VERIF_SCRATCH"]
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4)
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        seed = r["seed"]
        tier = r["tier"]
        c = r["case"]
        todo = [Case(c["name"], c["fn"], c["args"])]
    else:
        todo = mod.cases(tier, seed)
        if a.only:
            todo = [c for c in todo if fnmatch.fnmatch(c.name, a.only)]
        todo.sort(key=lambda c: (c.prio, -c.cost))
    quick = tier == "quick"
    budget = a.budget or getattr(mod, "BUDGET", {}).get(tier) or (240 if quick else 2700)
    limit = getattr(mod, "CASE_LIMIT", {}).get(tier) or (90 if quick else 900)
    results, unfinished, unstarted, initfails = execute(modname, todo, seed, tier, budget, jobs, scratch, limit, a.v)

    prop = mod.PROPERTY
    events, distinct, skips = Counter(), set(), Counter()
    samples, viols, errors, timeouts = [], [], [], []
    for r in sorted(results, key=lambda r: r["name"]):
        events.update(r["events"])
        distinct.update(r["distinct"])
        skips.update(r["skips"])
        for s in r["samples"]:
            samples.append({"case": r["name"], "observed": s})
        for v in r["violations"]:
            viols.append((r, v))
        if r["status"].startswith("error"):
            errors.append((r["name"], r["status"]))
        if r["status"] == "timeout":
            timeouts.append(r["name"])
    for i in initfails[:1]:
        # symfem cannot even be imported: no property of it can be observed
        print("WORKER-INIT-FAILED", i)

    findings = [f for f in load_findings() if f["property"] == prop]
    new, known = [], {}
    for r, v in viols:
        for f in findings:
            if any(fnmatch.fnmatchcase(v["mechanism"], m) for m in f["mechanisms"]):
                known[f["id"]] = f
                break
        else:
            new.append((r, v))

    for f in findings:
        if f["id"] in known:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    os.makedirs(EVIDENCE, exist_ok=True)
    seen_mech = set()
    shown = 0
    for r, v in new:
        if v["mechanism"] in seen_mech:
            continue
        seen_mech.add(v["mechanism"])
        if shown < 15:
            path = os.path.join(EVIDENCE, f"replay-{prop}-{shown}.json")
            with open(path, "w") as fh:
                json.dump(
                    {"property": prop, "seed": seed, "tier": tier, "case": r["case"], "violation": v},
                    fh,
                    indent=1,
                    default=str,
                )
            print(f"  {v['mechanism']}: {v['message']} {json.dumps(v['detail'])[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
            shown += 1
        else:
            print(f"  also {v['mechanism']}: {v['message'][:200]}")
    total = sum(events.values())
    floor = getattr(mod, "FLOOR", 50)
    rnd = random.Random(seed)
    rnd.shuffle(samples)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples[:6] or [{"note": "no sample recorded"}],
            "monitor_events": dict(sorted(events.items())),
            "cases_planned": len(todo),
            "cases_finished": sum(1 for r in results if r["status"] == "ok"),
            "cases_skipped_out_of_domain": dict(skips.most_common(40)),
            "cases_timed_out": timeouts,
            "cases_cut_by_budget": unfinished + unstarted,
            "known_findings_seen": sorted(known),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(seen_mech),
    }
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(
        f"{prop} {tier} seed={seed}: {total} oracle evaluations, {len(distinct)} distinct, "
        f"{len(results)}/{len(todo)} cases, {len(timeouts)} timeouts, {len(errors)} harness errors, "
        f"{len(seen_mech)} violations, {time.time() - t0:.0f}s"
    )
    for n, e in errors[:5]:
        print("HARNESS-ERROR", n, e)
    if new:
        return 1
    if errors or initfails:
        return 2
    if total < floor and not a.replay and not a.only:
        print("INCONCLUSIVE: too few observations")
        return 2
    return 0


def entry():
    """Re-exec into the right interpreter with a clean environment, clean up afterwards."""
    scratch = tempfile.mkdtemp(prefix="verif-")
    env = dict(os.environ)
    seed = env.get("VERIF_SEED", "1")
    env.update(
        VERIF_SCRATCH=scratch,
        XDG_CACHE_HOME=os.path.join(scratch, "xdg"),
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        PYTHONHASHSEED=str(int(seed) % 4294967295),
        PYTHONDONTWRITEBYTECODE="",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        PYTHONPATH=VERIF,
        TMPDIR=scratch,
    )
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    os.makedirs(env["XDG_CACHE_HOME"])
    import subprocess

    p = subprocess.Popen(["/opt/venv/bin/python", "-m", "harness.inner"] + sys.argv[1:], env=env, cwd=VERIF)
    try:
        rc = p.wait()
    except KeyboardInterrupt:
        p.terminate()
        rc = 130
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if rc < 0:
        rc = 2
    return rc
