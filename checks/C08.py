"""C08: splits partition losslessly."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vt
from machine import *
import xform
from xform import tinfo, chains, apply

HUGE = 1 << 20


def descr(op):
    k = {"div": "div", "floordiv": "floordiv"}.get(op["o"], op.get("kind"))
    return dict(kind=k, step=op["parts"] if op["o"] in ("div", "floordiv") else op["step"],
                splits=op.get("splits", []), sizes=op.get("sizes", []), pre=op.get("pre", 0), post=op.get("post", 0),
                rel=op.get("rel", False))


def record(ctx, op, d, pre, res, err, kind, form):
    if any(f["lo"] == [-LIM] or f["hi"] == [-LIM] for f in pre["fib"] if f["d"] == op["depth"]):
        # an active range that is not a pair of coordinates: only an empty fiber may have one
        bad = [f for f in pre["fib"] if f["d"] == op["depth"] and (f["lo"] == [-LIM] or f["hi"] == [-LIM])]
        ctx.notes["no-active-range"] += len(bad)
    ctx.emit(dict(op="split", a=descr(op), depth=op["depth"], d=list(val(d)), err=err, kind=kind, form=form,
                  raw=op, pre=dict(tree=pre["tree"], fib=pre["fib"]), res=dict(tree=res["tree"], fib=res["fib"])),
             key=(repr(descr(op)), op["depth"], repr(pre["tree"])) if pre["tree"]["c"] else None)


def split_fiber(ctx, f, op, d, kind="fiber", form="method"):
    ids = Ids()
    pre = tinfo(f, ids)

    def go():
        if form == "below":
            g = copymod.deepcopy(f)
            kw = dict(depth=op["depth"] - 1)
            if op["rel"]:
                kw["relativeCoords"] = True
            if op["pre"]:
                kw["pre_halo"] = op["pre"]
            if op["post"]:
                kw["post_halo"] = op["post"]
            k = op["kind"]
            arg = {"uniform": op["step"], "equal": op["step"], "nonuniform": list(op["splits"]),
                   "unequal": list(op["sizes"])}[k]
            getattr(g, dict(uniform="splitUniform", equal="splitEqual", nonuniform="splitNonUniform",
                            unequal="splitUnEqual")[k] + "Below")(arg, **kw)
            return g
        if form == "pos":
            k = op["kind"]
            arg = {"uniform": op["step"], "equal": op["step"], "nonuniform": list(op["splits"]),
                   "unequal": list(op["sizes"])}[k]
            m = dict(uniform="splitUniform", equal="splitEqual", nonuniform="splitNonUniform", unequal="splitUnEqual")[k]
            return getattr(f, m)(arg, op["rel"], op["depth"], None, op["pre"], op["post"])
        return apply(f, op)
    err, R = ctx.call(go)
    res = tinfo(R, ids)
    record(ctx, op, d, pre, res, err, kind, form)
    return R


def ops_small(rng, n):
    """Every split of a small fiber over n coordinates."""
    for rel in (False, True):
        for pre, post in ((0, 0), (1, 0), (0, 1), (2, 1)):
            b = dict(o="split", depth=0, rel=rel, pre=pre, post=post, step=0, splits=[], sizes=[])
            for s in range(1, n + 1):
                yield dict(b, kind="uniform", step=s)
                yield dict(b, kind="equal", step=s)
            for m in range(1, 1 << n):
                s = [c for c in range(n) if m >> c & 1]
                if len(s) <= 3:
                    yield dict(b, kind="nonuniform", splits=s)
            for z in ([1], [2], [1, 2], [2, 1], [1, 1, 1]):
                yield dict(b, kind="unequal", sizes=z)


def gen(ctx):
    rng = ctx.rng
    # exhaustive: leaf fibers over 4 coordinates, each absent / explicit default / a value
    n = 4
    small = list(ops_small(rng, n))
    frac = 1.0 if ctx.thorough else 0.22
    for st in itertools.product((0, 1, 2), repeat=n):
        t = [(c, 0 if s == 1 else 10 + c) for c, s in enumerate(st) if s]
        for op in small:
            if ctx.mine() and rng.random() < frac:
                f = build(t, 0)
                sh = rng.choice((None, n, n + 2))
                if sh is not None:
                    f = build(t, 0, [sh])
                if rng.random() < 0.5:
                    lo = rng.randint(0, n - 1)
                    f.setActive((lo, rng.randint(lo + 1, n + 1)))
                split_fiber(ctx, f, op, 0, form=rng.choice(("method", "pos")))
    # larger random fibers, several levels, owned sub-fibers, partitions of partitions
    for _ in range(ctx.share(5000, 20000)):
        D = rng.choice((1, 1, 2, 2, 3))
        nc = size(rng, D, (3, 5, 8, 12) if D == 1 else (2, 3, 5))
        d = rng.choice((0, 0, 5))
        tree = rtree(rng, D, nc, [d, 1])
        f = mk(tree, [d, 1])
        k = rng.random()
        if k < 0.3:
            T = Tensor.fromFiber(["R%d" % i for i in range(D)], f, default=d, shape=[nc + 1] * D if rng.random() < 0.5 else None)
            f = T.getRoot()
            if rng.random() < 0.3:
                for i in T.getRankIds():
                    T.setFormat(i, rng.choice("CU"))
            # or some sub-fiber of it, with ranks of its own above
            while D > 1 and f.payloads and rng.random() < 0.4:
                f = rng.choice(f.payloads)
                D -= 1
        elif k < 0.4 and D == 1:
            f.getRankAttrs().setFormat("U")
        if rng.random() < 0.3 and D == 1:
            lo = rng.randint(0, nc - 1)
            f.setActive((lo, rng.randint(lo + 1, nc + 2)))
        dep = rng.randrange(D)
        op = dict(o="split", depth=dep, byid=rng.random() < 0.5, **xform.rsplit(rng, nc))
        if op["byid"]:
            op["wrongdepth"] = rng.choice((0, 0, 1))
        form = rng.choice(["method", "method", "pos"] + (["below"] if dep > 0 and f.getOwner() is None else []))
        if rng.random() < 0.12:
            o = rng.choice(("div", "floordiv"))
            op = dict(o=o, depth=0, parts=rng.randint(1, 5))
            form = "method"
        R = split_fiber(ctx, f, op, d, form=form)
        # split a partition (or the upper level) of the result again
        if isinstance(R, Fiber) and rng.random() < 0.6 and not op.get("rel"):
            for _ in range(rng.randint(1, 2)):
                if R is None:
                    break
                D2 = R.getDepth() if rng.random() < 0.9 else 1
                dep2 = min(dep + rng.choice((0, 1, 1, 1)), max(0, D2 - 1))
                op2 = dict(o="split", depth=dep2, byid=False, **xform.rsplit(rng, nc))
                R = split_fiber(ctx, R, op2, d, kind="again")
                if op2["rel"]:
                    break

    def emit(t, op, ids, pre, post, R, res, err, kind):
        if op["o"] not in ("split", "div", "floordiv") or pre["k"] != "T":
            return
        record(ctx, op, t.d, pre, res, err, kind, "tensor")
    chains(ctx, ctx.share(2000, 8000), 3, emit,
           only=["split", "split", "split", "div", "floordiv", "swizzle", "flatten", "deepcopy"], exo=0.06)


if __name__ == "__main__":
    cfg = """SPECIFICATION Spec
CONSTANTS NC = %d
 MaxHalo = %d
 MaxStep = %d
INVARIANTS Lossless InsideInterval UpperAscending ChunkSizes HaloOnlyAdds RelativeOffsets Tiling ScanAgrees
CHECK_DEADLOCK FALSE
"""
    vt.main("C08", gen, "Trace_C08",
            mc=[dict(name="partitions-3", module="MC_Split", cfg=cfg % (3, 1, 2)),
                dict(name="partitions-4", module="MC_Split", cfg=cfg % (4, 1, 3), thorough_only=True, timeout=800)],
            rule="splits of real fibers and tensors; non-trivial when the operand was not empty; distinct by split and operand")
