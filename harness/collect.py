"""Metrics collection sessions around kernels."""
import copy as copymod
import os
import random

from ft import Metrics, Tensor, Fiber, Payload
import kernel as K

_PRISTINE = {a: copymod.deepcopy(v) for a, v in vars(Metrics).items()
             if not a.startswith("__") and not isinstance(v, (classmethod, staticmethod)) and not callable(v)}


def reset():
    """Metrics as just imported."""
    for a, v in _PRISTINE.items():
        setattr(Metrics, a, copymod.deepcopy(v))


def files(prefix, traces):
    """Contents of the trace files: {(rank, type): [lines]}; None if there is no file."""
    r = {}
    for rank, ty in traces:
        p = f"{prefix}-{rank}-{ty}.csv"
        r[rank, ty] = open(p).read().splitlines() if os.path.exists(p) else None
    return r


def remove(prefix, traces):
    for rank, ty in traces:
        p = f"{prefix}-{rank}-{ty}.csv"
        if os.path.exists(p):
            os.unlink(p)


def collect(prefix, traces, body, mem=(), cached=None, rng=None, match=()):
    """One session. body(step) runs the kernel; step() is called inside its innermost bodies.
    Returns dump, files, consumed rows."""
    if cached:
        Metrics.setNumCachedUses(cached)
    Metrics.beginCollect(prefix)
    for a, b in match:
        Metrics.matchRanks(a, b)
    todo = [(t, False) for t in traces] + [(t, True) for t in mem]
    if rng:
        rng.shuffle(todo)
    for (rank, ty), m in todo:
        if ty == "iter" and not m and rng and rng.random() < 0.5:
            Metrics.trace(rank)
        else:
            Metrics.trace(rank, ty, consumable=m)
    got = {t: [] for t in mem}

    def step():
        for t in mem:
            if rng is None or rng.random() < 0.2:
                got[t] += Metrics.consumeTrace(*t)
    res = body(step)
    for t in mem:
        got[t] += Metrics.consumeTrace(*t)
    Metrics.endCollect()
    return res, copymod.deepcopy(Metrics.dump()), files(prefix, traces), {t: [",".join(str(x) for x in row) for row in v] for t, v in got.items()}


def build(k, rng=None):
    """Operands as they are declared."""
    rng = rng or random.Random(k.seed)
    return [K.operand(k, i, rng) for i in range(len(k.ops))]


def prepare(k, ops=None):
    """Operands on the dataflow of k, with renamed ranks where it projects."""
    rng = random.Random(k.seed)
    ops = copymod.deepcopy(ops) if ops else build(k, rng)
    ts = [K.dataflow(k, t, vs) for t, vs in zip(ops, k.ops)]
    for (i, r), (_, _, _, rid) in getattr(k, "proj", {}).items():
        ts[i].setRankIds([rid if x == r else x for x in ts[i].getRankIds()])
    for t in ts:
        for r in t.getRankIds():
            if rng.random() < getattr(k, "dense", 0):
                t.setFormat(r, "U")
    return ts


def trace_types(k):
    """Every (rank, type) a kernel can be traced with."""
    r = []
    for d, rank in enumerate(k.order):
        m = sum(1 for vs in k.ops if k.var(rank) in vs)
        out = k.var(rank) in k.out
        r.append((rank, "iter"))
        lab = 0
        if rank in getattr(k, "refs", ()):
            r.append((rank, "ref"))
        elif out:
            for _ in range(2 if getattr(k, "second", False) else 1):
                r += [(rank, f"populate_read_{lab}"), (rank, f"populate_write_{lab}"), (rank, f"populate_{lab + 1}")]
                lab += 2
        pr = [i for i, vs in enumerate(k.ops) if (i, rank) in getattr(k, "proj", {})]
        if m > 1 and k.style[rank] == "get":
            r += [(rank, f"get_{j}") for j in range(1, m)]
        elif m > 1:
            w = {"and": "intersect", "isect": "intersect", "lf": "intersect", "or": "union", "union": "union"}[k.style[rank]]
            n = m if k.style[rank] == "lf" else 2 * (m - 1)
            r += [(rank, f"{w}_{lab + i}") for i in range(n)]
            lab += n
        for i in pr:
            # which label the projection gets depends on the shape of the expression
            r += [(k.proj[i, rank][3], f"project_{x}") for x in range(lab + m)]
    return r
