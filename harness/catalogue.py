"""The element configurations the checks draw from, with measured costs (seconds)."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def load():
    with open(os.path.join(HERE, "catalogue.json")) as f:
        return [tuple(e) for e in json.load(f)]


def label(cell, name, kw, order):
    k = ",".join(f"{a}={b}" for a, b in sorted(kw.items()) if not (a == "variant" and b == "equispaced"))
    return f"{cell}/{name}/{order}" + (f"/{k}" if k else "")


def select(max_cost, cells=None, pred=None):
    """[(label, cell, name, kwargs, order, cost, dim)] with cost at most max_cost."""
    out = []
    for cell, name, kw, order, cost, dim, kind in load():
        if cost <= max_cost and (cells is None or cell in cells):
            if pred is None or pred(cell, name, kw, order, kind):
                out.append((label(cell, name, kw, order), cell, name, kw, order, cost, dim))
    return out


def thin(items, budget, seed, jobs=8, factor=1.0, keep=None):
    """A subset whose total cost fits the budget: cheap ones always, the others by lot.

    Every (cell, name) keeps at least its cheapest configuration; the rest is a seeded sample
    weighted towards coverage of distinct (cell, name, order).
    """
    import random

    rng = random.Random(f"thin/{seed}")
    total = budget * jobs
    items = list(items)
    order = sorted(items, key=lambda i: i[5])
    chosen, spent, seen = [], 0.0, set()
    rest = []
    for it in order:
        fam = (it[1], it[2])
        c = it[5] * factor + 0.05
        if fam not in seen or (keep and keep(it)):
            seen.add(fam)
            chosen.append(it)
            spent += c
        else:
            rest.append(it)
    cheap = [it for it in rest if it[5] * factor < 0.5]
    costly = [it for it in rest if it[5] * factor >= 0.5]
    rng.shuffle(costly)
    for it in cheap + costly:
        c = it[5] * factor + 0.05
        if spent + c <= total:
            chosen.append(it)
            spent += c
    return chosen


def kept(max_cost, items):
    """The cheapest configurations where a kind of DOF (class, entity dimension, mapping) first appears,
    beyond those already in `items`."""
    with open(os.path.join(HERE, "keep.json")) as f:
        keep = set(json.load(f))
    have = {i[0] for i in items}
    return [i for i in select(max_cost) if i[0] in keep and i[0] not in have]


def breadth(max_cost, items, siblings=False):
    """The cheapest configuration of every (cell, name) that `items` lacks; with siblings=True also those that differ from it only in
    their keywords."""
    have = {i[1:3] for i in items}
    best = {}
    rest = [i for i in select(max_cost) if i[1:3] not in have]
    for i in rest:
        if i[1:3] not in best or i[5] < best[i[1:3]][5]:
            best[i[1:3]] = i
    if siblings:
        return [i for i in rest if i[4] == best[i[1:3]][4]]
    return list(best.values())
