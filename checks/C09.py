"""C09: rank transforms move every point to its image and nothing else."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vt
from machine import *
import xform
from xform import tinfo, chains, apply, merge_fn, shp

KINDS = ("swizzle", "swap", "flatten", "unflatten", "merge")


def descr(op):
    return dict(o=op["o"], depth=op.get("depth", 0), levels=op.get("levels", 0), style=op.get("style", ""),
                perm=op.get("perm", []), fn=op.get("fn", "none") if op["o"] == "merge" else "none")


def record(ctx, op, D, d, auth, pre, res, err, form):
    ctx.emit(dict(op=op["o"], a=descr(op), D=D, d=list(val(d)), auth=auth, err=err, form=form, raw=op,
                  pre=pre, res=res),
             key=(repr(descr(op)), repr(pre)) if pre["c"] else None)


def on_fiber(ctx, f, D, d, op, form):
    """The same transforms as methods of a fiber (or their *Below forms on a copy)."""
    ids = Ids()
    pre = enc(f, ids)
    o, k, lv, st = op["o"], op["depth"], op["levels"], op["style"]

    def go():
        if form == "below":
            g = copymod.deepcopy(f)
            if o == "swap":
                g.swapRanksBelow(depth=k - 1)
            elif o == "unflatten":
                g.unflattenRanksBelow(levels=lv, depth=k - 1)
            else:
                g.flattenRanksBelow(levels=lv, style=st, depth=k - 1)
            return g
        if o == "swap":
            return f.swapRanks()
        if o == "unflatten":
            return f.unflattenRanks(levels=lv)
        if o == "flatten":
            return f.flattenRanks(depth=k, levels=lv, style=st)
        return f.mergeRanks(depth=k, levels=lv, style=st, merge_fn=merge_fn(op["fn"]))

    # the shapes the fibers declare, rank by rank
    auth, level = [], [f]
    while level:
        s = {repr(shp(x.getShape(all_ranks=False, authoritative=True))) for x in level}
        if len(s) != 1 or s == {"[]"}:
            auth = []
            break
        auth.append(shp(level[0].getShape(all_ranks=False, authoritative=True)))
        level = [p for x in level for p in x.payloads if isinstance(p, Fiber)]
    if len(auth) != D:
        auth = []
    err, R = ctx.call(go)
    record(ctx, op, D, d, auth, pre, enc(R, ids), err, "fiber" if form != "below" else "below")
    return R


def roundtrip(ctx, what, x, d, go):
    """An operation and its inverse must restore an equal object."""
    ids = Ids()
    r = root_of(x) if isinstance(x, Tensor) else x
    pre = enc(r, ids)
    err, R = ctx.call(go, x)
    eq = False
    rr = R
    if err == "":
        rr = root_of(R) if isinstance(R, Tensor) else R
        err, eq = ctx.call(lambda: bool(R == x) and bool(x == R))
        if not isinstance(eq, bool):
            eq = False
    ctx.emit(dict(op="roundtrip", what=what, d=list(val(d)), err=err, pre=pre, res=enc(rr, ids), eq=eq),
             key=(what, repr(pre)) if pre["c"] else None)
    return R


def trip(ctx, rng, t):
    """A random round trip legal for t."""
    D = t.D
    k = rng.choice(("swizzle", "swap", "flatten", "flatten", "split", "split", "split"))
    if k == "swizzle":
        p = list(range(D))
        rng.shuffle(p)

        def go(T):
            r = T.getRankIds()
            return T.swizzleRanks([r[i] for i in p]).swizzleRanks(r)
        return roundtrip(ctx, "swizzle%s" % p, t.T, t.d, go)
    if k == "swap" and D > 1:
        i = rng.randrange(D - 1)
        return roundtrip(ctx, "swap%d" % i, t.T, t.d, lambda T: T.swapRanks(depth=i).swapRanks(depth=i))
    if k == "flatten" and D > 1:
        i = rng.randrange(D - 1)
        lv = rng.randint(1, min(3, D - 1 - i))
        if any(s != "int" for s in t.styles[i:i + lv + 1]) \
                or any(isinstance(x, list) for x in t.T.getRankIds()[i:i + lv + 1]):
            return None
        s = rng.choice(("tuple", "pair"))

        def go(T):
            R = T.flattenRanks(depth=i, levels=lv, coord_style=s)
            if lv > 1 and rng.random() < 0.5:      # one level at a time
                for j in range(lv):
                    R = R.unflattenRanks(depth=i + j, levels=1)
                return R
            return R.unflattenRanks(depth=i, levels=lv)
        return roundtrip(ctx, "flatten-%s-%d-%d" % (s, i, lv), t.T, t.d, go)
    if k == "split":
        i = rng.randrange(D)
        a = dict(o="split", depth=i, byid=False, **xform.rsplit(rng, 5, t.styles[i] != "int"))
        a.update(rel=False, pre=0, post=0)
        if a["kind"] == "nonuniform" and a["splits"] and not a.get("asfiber"):
            a["splits"] = [0] + [s for s in a["splits"] if s]     # a partition for every element
        elif a["kind"] == "nonuniform":
            return None

        def go(T):
            return apply(T, a).flattenRanks(depth=i, levels=1, coord_style="absolute")
        # only active elements are split
        if any(not f.getActive()[0] <= c < f.getActive()[1] for f in t.T.ranks[i].getFibers() for c in f.coords):
            return None
        # the flattened tensor has other rank ids: compare the roots
        ids = Ids()
        pre = enc(root_of(t.T), ids)
        err, R = ctx.call(go, t.T)
        eq = False
        if err == "":
            err, eq = ctx.call(lambda: bool(root_of(R) == root_of(t.T)))
            eq = eq is True
        ctx.emit(dict(op="roundtrip", what="split-%s-%d" % (a["kind"], i), d=list(val(t.d)), err=err, pre=pre, raw=a,
                      res=enc(root_of(R), ids) if R is not None else node("N"), eq=eq),
                 key=("split", repr(a), repr(pre)) if pre["c"] else None)
    return None


def fops(rng, D, fn=None):
    """A random fiber-level transform of a D-rank fiber with integer coordinates."""
    o = rng.choice(("swap", "flatten", "merge", "merge"))
    k = rng.randrange(D - 1)
    lv = rng.randint(1, min(3, D - 1 - k))
    op = dict(o=o, depth=k, levels=0, style="")
    if o == "flatten":
        op.update(levels=lv, style=rng.choice(("tuple", "pair", "linear")))
    if o == "merge":
        op.update(levels=lv, style=rng.choice(("absolute", "relative", "tuple", "linear", "absolute", "relative")),
                  fn=rng.choice(("none", "sum", "max", "prod", "first")))
    return op


def gen(ctx):
    rng = ctx.rng
    # every two-rank tree over 2x2 coordinates: each leaf absent / explicit default / value; sub-fiber absent
    leaf = []
    for st in itertools.product((0, 1, 2), repeat=2):
        leaf.append([(c, 0 if s == 1 else 10 + c) for c, s in enumerate(st) if s])
    subs = [None] + leaf
    for a, b, c in itertools.product(subs, repeat=3):
        t = [(i, x) for i, x in enumerate((a, b, c)) if x is not None]
        if not ctx.mine():
            continue
        if not ctx.thorough and rng.random() > 0.6:
            continue
        d = rng.choice((0, 7))
        desc = [(i, [(j, d if v == 0 else v + i) for j, v in s]) for i, s in t]
        shape = rng.choice((None, [4, 3]))
        for op in (dict(o="swap", depth=0, levels=0, style=""),
                   dict(o="flatten", depth=0, levels=1, style=rng.choice(("tuple", "pair", "linear"))),
                   dict(o="merge", depth=0, levels=1, style=rng.choice(("absolute", "relative")),
                        fn=rng.choice(("none", "max", "prod", "first")))):
            f = build(desc, d, shape)
            if not desc:
                f = Fiber([], [], default=Fiber(default=d))
            R = on_fiber(ctx, f, 2, d, op, "method")
            if op["o"] == "flatten" and op["style"] != "linear" and isinstance(R, Fiber):
                on_fiber(ctx, R, 1, d, dict(o="unflatten", depth=0, levels=1, style=op["style"]), "method")
        # under a third rank: the *Below forms and the tensor forms
        desc3 = [(0, desc), (2, [(1, [(0, 5)])])]
        f3 = build(desc3, d, [3] + shape if shape else None)
        op = rng.choice((dict(o="swap", depth=1, levels=0, style=""),
                         dict(o="flatten", depth=1, levels=1, style=rng.choice(("tuple", "pair", "linear"))),
                         dict(o="merge", depth=1, levels=1, style=rng.choice(("absolute", "relative")),
                              fn=rng.choice(("none", "max", "prod", "first")))))
        R = on_fiber(ctx, f3, 3, d, op, "below" if op["o"] == "swap" or op["o"] == "flatten" and rng.random() < 0.6 else "method")
        if op["o"] == "flatten" and op["style"] != "linear" and isinstance(R, Fiber):
            on_fiber(ctx, R, 2, d, dict(o="unflatten", depth=1, levels=1, style=op["style"]), "below")
    # random deeper fibers
    for _ in range(ctx.share(1600, 8000)):
        D = rng.choice((2, 3, 3, 4))
        nc = size(rng, D, (2, 3, 4) if D < 4 else (2, 3))
        d = rng.choice((0, 0, 7))
        f = mk(rtree(rng, D, nc, [d, 1]), [d, 1])
        if rng.random() < 0.5:
            T = Tensor.fromFiber(list("ABCD"[:D]), f, default=d, shape=[nc + rng.randint(0, 2) for _ in range(D)]
                                 if rng.random() < 0.7 else None)
            f = T.getRoot()
        op = fops(rng, D)
        if op["o"] == "swap" and op["depth"] > 0:
            form = "below"
        else:
            form = rng.choice(("method", "below")) if op["depth"] > 0 and op["o"] != "merge" else "method"
        if form == "below" and f.getOwner() is not None:
            f = f.copy(preserve_owner=False) if False else copymod.deepcopy(f)
            f = mk(enc(f), [d, 1])
        R = on_fiber(ctx, f, D, d, op, form)
        if op["o"] == "flatten" and op["style"] != "linear" and isinstance(R, Fiber):
            n = op["levels"]
            on_fiber(ctx, R, D - n, d, dict(o="unflatten", depth=op["depth"], levels=rng.randint(1, n), style=op["style"]),
                     "below" if op["depth"] > 0 else "method")

    def emit(t, op, ids, pre, post, R, res, err, kind):
        if pre["k"] != "T":
            return
        if op["o"] in KINDS:
            record(ctx, op, t.D, t.d, pre["auth"], pre["tree"], res["tree"], err, "tensor")
        if rng.random() < 0.4:
            trip(ctx, rng, t)
    chains(ctx, ctx.share(3000, 16000), 4, emit,
           only=["split", "swizzle", "swizzle", "swap", "swap", "flatten", "flatten", "unflatten", "merge", "merge"], exo=0.06)


if __name__ == "__main__":
    cfg = """SPECIFICATION Spec
CONSTANTS NC = %d
INVARIANTS MovesToImage StaysWellFormed LinearInjective MergeKeepsTotal
CHECK_DEADLOCK FALSE
"""
    vt.main("C09", gen, "Trace_C09",
            mc=[dict(name="transform-2", module="MC_Transform", cfg=cfg % 2),
                dict(name="transform-3", module="MC_Transform", cfg=cfg % 3, thorough_only=True, timeout=800)],
            rule="rank transforms of real fibers and tensors, and round trips; non-trivial when the operand was not empty; "
                 "distinct by transform and operand")
