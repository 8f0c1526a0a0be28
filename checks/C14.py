"""C14: rank ids, shapes, defaults, formats and active ranges follow the data."""
import copy
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vt
from machine import *
import xform
from xform import tinfo, chains, apply, rand_tensor, rid, shp, act

OPS = ("split", "div", "floordiv", "swizzle", "swap", "flatten", "unflatten", "merge", "updpay", "deepcopy")


def byname(T):
    """What a tensor reports when asked about one rank at a time, and in another order."""
    if not isinstance(T, Tensor) or not isinstance(xform.root_of(T), Fiber):
        return dict(one=[], some=[], fmt=[], depth=0, it=[])
    ids_ = T.getRankIds()
    if any(not isinstance(i, str) for i in ids_) or len(set(ids_)) != len(ids_):
        one, some, fmt = [], [], []
    else:
        one = [shp(T.getShape(i)) for i in ids_]
        some = [shp(s) for s in T.getShape(list(reversed(ids_)))]
        fmt = [T.getFormat(i) for i in ids_]
    it = []

    def go(f):
        it.append([[flat(c) for c, _ in f.iterOccupancy(tick=False)], [flat(c) for c, _ in f.iterActive(tick=False)]])
        for p in f.payloads:
            if isinstance(p, Fiber):
                go(p)
    go(xform.root_of(T))
    return dict(one=one, some=some, fmt=fmt, depth=T.getDepth(), it=it)


def transform(ctx, t, op, ids, pre, post, R, res, err, kind):
    if op["o"] not in OPS or pre["k"] != "T" or t is None:
        return
    o = "split" if op["o"] in ("div", "floordiv") else op["o"]
    if o == "updpay":
        o = "same"
    a = dict(o=o, depth=op.get("depth", 0), levels=op.get("levels", 0), style=op.get("style", ""), perm=op.get("perm", []),
             fn="none")
    slim = lambda x: {k: x[k] for k in ("k", "D", "tree", "rid", "shape", "auth", "dflt", "fmt", "mut", "fib")}
    if err:
        ctx.notes["refused:%s:%s" % (op["o"], err)] += 1
    ctx.emit(dict(op="transform", a=a, halo=bool(op.get("pre") or op.get("post")),
                  quoted=any("'" in n for r in pre["rid"] for n in r), err=err, raw=op, kind=kind,
                  pre=slim(pre), res=slim(res), by=byname(R)), key=(repr(a), repr(pre["tree"]), repr(pre["auth"])))


def construct(ctx, rng):
    D = rng.choice((1, 2, 2, 3))
    nc = rng.choice((1, 2, 3, 4))
    d = rng.choice((0, 0, 7))
    shape = [nc + rng.randint(0, 2) for _ in range(D)]
    ids_ = list("MKNP"[:D])
    tree = rtree(rng, D, nc, [d, 1])
    want = dict(rid=[rid(i) for i in ids_], shape=[[s] for s in shape], mut=False)
    kind = rng.choice(("empty", "emptynoshape", "fiber", "fibernoshape", "fiberownshape", "unc", "uncshape", "random",
                       "populated", "yaml", "defaultids", "onlyfiber", "owned", "sub"))

    tree1 = node("B", v=[5, 1])
    for _ in range(D):
        tree1 = node("F", c=[[rng.randrange(nc)]], p=[tree1], g="e")

    def nest(k):
        if k == D:
            return rng.choice((d, d, 0, 1, 2, 3))
        return [nest(k + 1) for _ in range(shape[k])]

    def go():
        if kind == "empty":
            want["mut"] = True
            return Tensor(rank_ids=ids_, shape=shape, default=d)
        if kind == "emptynoshape":
            want["mut"] = True
            want["shape"] = []
            return Tensor(rank_ids=ids_, default=d)
        if kind == "fiber":
            return Tensor.fromFiber(ids_, mk(tree, [d, 1]), shape=shape, default=d)
        if kind == "fibernoshape":
            want["shape"] = []
            return Tensor.fromFiber(ids_, mk(tree, [d, 1]), default=d)
        if kind == "fiberownshape":
            want["shape"] = []
            def b(n, k):
                ps = [b(p, k + 1) if p["k"] == "F" else num(p["v"]) for p in n["p"]]
                return Fiber([c[0] for c in n["c"]], ps, shape=shape[k], default=d if k == D - 1 else Fiber())
            return Tensor.fromFiber(ids_, b(tree, 0), default=d)
        if kind == "unc":
            return Tensor.fromUncompressed(ids_, nest(0), default=d)
        if kind == "uncshape":
            big = [s + rng.randint(0, 2) for s in shape]
            want["shape"] = [[s] for s in big]
            return Tensor.fromUncompressed(ids_, nest(0), shape=big, default=d)
        if kind == "random":
            return Tensor.fromRandom(ids_, shape, [rng.choice((0.4, 1.0))] * D, seed=rng.randrange(999), default=d)
        if kind == "populated":
            want["mut"] = True
            return Tensor.makePopulated(ids_, shape, initial=rng.choice((0, 1, 5)), default=d)
        if kind == "yaml":
            T = Tensor.fromFiber(ids_, mk(rtree(rng, D, nc, [0, 1]), [0, 1]), shape=shape)
            T.dump("t.yaml")
            return Tensor.fromYAMLfile("t.yaml")
        if kind == "defaultids":
            want["rid"] = [["R%d" % (D - 1 - i)] for i in range(D)]
            return Tensor.fromFiber(fiber=mk(tree, [d, 1]), shape=shape, default=d)
        if kind == "onlyfiber":
            # nothing but a fiber: the depth is that of its leaves
            t1 = rtree(rng, D, nc, [d, 1])
            b = t1
            for _ in range(D - 1):
                b = b["p"][0] if b["p"] else None
                if b is None:
                    t1 = tree1
                    break
            want["rid"] = [["R%d" % (D - 1 - i)] for i in range(D)]
            want["shape"] = []
            return Tensor.fromFiber(fiber=mk(t1, [d, 1]), default=d)
        T = Tensor.fromFiber(["A%d" % i for i in range(D)], mk(tree, [d, 1]), shape=[s + 1 for s in shape], default=d)
        for i in T.getRankIds():
            T.setFormat(i, rng.choice("CU"))
        if kind == "owned":
            return Tensor.fromFiber(ids_, T.getRoot(), shape=shape, default=d)
        B = Tensor.fromFiber(["X"] + ids_, Fiber([1], [mk(tree, [d, 1])], default=Fiber()), shape=[3] + shape, default=d)
        for i in B.getRankIds():
            B.setFormat(i, rng.choice("CU"))
        return Tensor.fromFiber(ids_, B.getRoot().payloads[0], shape=shape, default=d)
    ids = Ids()
    err, T = ctx.call(go)
    dd = [0, 1] if kind == "yaml" else list(val(d))
    res = tinfo(T, ids)
    ctx.emit(dict(op="construct", kind=kind, want=want, d=dd, err=err, res=res, by=byname(T)),
             key=(kind, repr(want), repr(res["tree"])))
    if err:
        ctx.notes["construct-refused:%s:%s" % (kind, err)] += 1


def free(rng, D, nc, d):
    """A free fiber with attributes of its own."""
    f = mk(rtree(rng, D, nc, [d, 1]), [d, 1])

    def deco(g, k):
        if rng.random() < 0.7:
            g.getRankAttrs().setFormat(rng.choice("CU"))
        if rng.random() < 0.5:
            g.getRankAttrs().setId("Z%d" % k)
        if rng.random() < 0.5:
            g.getRankAttrs().setShape(nc + rng.randint(0, 3))
        for p in g.payloads:
            if isinstance(p, Fiber):
                deco(p, k + 1)
    deco(f, 0)
    return f


def loose(ctx, rng):
    """Transforms of a free fiber whose sub-fibers have shapes and active ranges of their own."""
    D = rng.choice((1, 2, 2, 3, 3))
    nc = rng.choice((2, 3, 5))
    f = mk(rtree(rng, D, nc, [0, 1]), [0, 1])
    same = [nc + rng.randint(0, 3) for _ in range(D)]
    how = rng.choice(("none", "same", "own", "own", "mixed", "mixed"))

    def deco(g, k):
        if how == "same":
            g.getRankAttrs().setShape(same[k])
        elif how == "own" or how == "mixed" and rng.random() < 0.5:
            g.getRankAttrs().setShape(rng.randint((g.maxCoord() + 1) if g.coords else 1, nc + 3))
        if rng.random() < 0.25:
            top = g.getShape(all_ranks=False)
            lo = rng.randint(0, min(g.coords or [0]))
            g.setActive((lo, max(lo, rng.randint((g.maxCoord() + 1) if g.coords else 0, max(top, 1)))))
        for p in g.payloads:
            if isinstance(p, Fiber):
                deco(p, k + 1)
    deco(f, 0)
    ids = Ids()
    for _ in range(rng.choice((1, 1, 2))):
        t = xform.TT(f, ["int"] * D, 0, same)
        ops = ["split", "split", "div", "floordiv", "fromfiber", "fromfiber"] + (["flatten", "flatten", "merge", "merge", "merge"] + (["swap"] if f.coords else []) if D > 1 else [])
        o = rng.choice(ops)
        op = dict(o=o, depth=rng.randrange(D - (o in ("flatten", "merge", "swap"))), levels=1, style="", fn="sum")
        if o == "split":
            op.update(xform.rsplit(rng, nc))
        elif o in ("div", "floordiv"):
            op.update(depth=0, parts=rng.randint(1, 4))
        elif o == "swap":
            op["depth"] = 0
        elif o in ("flatten", "merge"):
            op["levels"] = rng.randint(1, D - 1 - op["depth"])
            op["style"] = rng.choice(("tuple", "pair") if o == "flatten" else ("absolute", "absolute", "tuple", "pair"))
        pre = tinfo(f, ids)
        if o == "fromfiber":
            err, R = ctx.call(Tensor.fromFiber, list("MKNPQ"[:D]), copy.deepcopy(f))
        else:
            err, R = ctx.call(apply, f, op)
        res = tinfo(R, ids)
        slim = lambda x: {k: x[k] for k in ("k", "tree", "fib")}
        shapes = []
        for x in (f, R):
            try:
                s = x.getShape() if isinstance(x, (Fiber, Tensor)) else []
                shapes.append([shp(y) for y in s] if isinstance(s, list) else [[-xform.LIM]])
            except Exception:
                shapes.append([[-xform.LIM]])
        if err:
            ctx.notes["loose-refused:%s:%s" % (o, err)] += 1
        ctx.emit(dict(op="loose", halo=bool(op.get("pre") or op.get("post")), rel=bool(op.get("rel")), err=err, raw=op, pre=slim(pre), res=slim(res), shapes=shapes),
                 key=(repr(op), repr(pre["fib"])))
        if err or not isinstance(R, Fiber) or o not in ("split", "div", "floordiv") or op.get("pre") or op.get("post"):
            break
        f, D = R, D + 1
        same = same + [nc]


def join(ctx, rng):
    """Unowned fibers with other attributes join a tensor."""
    D = rng.choice((2, 2, 3))
    nc = 4
    d = rng.choice((0, 7))
    T = Tensor.fromFiber(list("MKNP"[:D]), mk(rtree(rng, D, nc, [d, 1]), [d, 1]),
                         shape=[nc + 2] * D if rng.random() < 0.7 else None, default=d)
    for i in T.getRankIds():
        T.setFormat(i, rng.choice("CU"))
    k = rng.choice(("append", "setitem", "extend", "assign", "setRoot", "populate", "fromFiber", "ref", "updpay", "nested"))
    f = T.getRoot()
    if k == "nested" and f.coords and D > 2:
        f = f.payloads[0]
    h = D if f is T.getRoot() else D - 1
    sub = free(rng, h - 1, nc, rng.choice((d, d, 3)))
    whole = free(rng, h, nc, d)

    def go():
        nonlocal T
        top = (f.coords[-1] if f.coords else -1) + 1
        if k in ("append", "nested"):
            f.append(top, sub)
        elif k == "setitem":
            f[rng.randrange(len(f.coords))] = sub
        elif k == "extend":
            g = Fiber([top], [sub], default=Fiber())
            f.extend(g)
        elif k == "assign":
            f.__ilshift__(whole)
        elif k == "setRoot":
            T.setRoot(free(rng, D, nc, d))
        elif k == "populate":
            for c, (z, a) in f << whole:
                if h == 2:
                    for c2, (z2, a2) in z << a:
                        z2 <<= 1
                else:
                    z <<= a
        elif k == "fromFiber":
            fm = [T.getFormat(i) for i in T.getRankIds()]
            T = Tensor.fromFiber(T.getRankIds(), free(rng, D, nc, d), shape=[nc + 3] * D, default=d)
            for i, x in zip(T.getRankIds(), fm):
                T.setFormat(i, x)
        elif k == "ref":
            r = f.getPayloadRef(rng.randrange(nc + 2))
            if isinstance(r, Fiber):
                r.__ilshift__(sub)
        elif k == "updpay":
            f.updatePayloads(lambda i, c, p: copymod.deepcopy(sub))
    ids = Ids()
    err, _ = ctx.call(go)
    if err:
        ctx.notes["join-refused:%s:%s" % (k, err)] += 1
    ctx.emit(dict(op="join", kind=k, err=err, res=tinfo(T, ids), by=byname(T)), key=(k, repr(tinfo(T, Ids())["tree"])))


def lazy(ctx, rng):
    nc = 5
    d = rng.choice((0, 0, 7))

    def one(name):
        f = mk(rtree(rng, 1, nc, [d, 1]), [d, 1])
        if rng.random() < 0.8:
            T = Tensor.fromFiber([name], f, shape=[nc + rng.randint(0, 3)] if rng.random() < 0.7 else None, default=d)
            if rng.random() < 0.3:
                T.setFormat(name, rng.choice("CU"))
            f = T.getRoot()
        elif rng.random() < 0.7:
            f.getRankAttrs().setId(name)
        if rng.random() < 0.4:
            lo = rng.randrange(nc)
            f.setActive((lo, rng.randint(lo + 1, nc + 2)))
        if rng.random() < 0.15:
            f = f.prune(lambda i, c, p: c % 2 == 0)
        return f
    f, g, h = one("A"), one("B"), one("C")
    if rng.random() < 0.25:
        f = rng.choice((lambda: f & h, lambda: f.prune(lambda i, c, p: True), lambda: f - h))()
    if rng.random() < 0.25:
        g = g & one("E") if rng.random() < 0.5 else g - one("E")
    z = one("Z")
    if z.isLazy():
        z = Fiber([], [], default=d)
        z.getRankAttrs().setId("Z")
    k = rng.choice(("and", "or", "xor", "sub", "populate", "intersection", "union", "leader-follower", "prune", "project", "project"))
    want_id, (lo, hi) = f, f.getActive()
    fn, interval, newid = dict(k="same", n=0), [], None
    if k == "populate":
        want_id, (lo, hi) = z, g.getActive()
    wantid = rid(want_id.getRankAttrs().getId())
    kw = {}
    if k == "project":
        fn = rng.choice((dict(k="shift", n=rng.randint(-2, 3)), dict(k="rev", n=rng.randint(3, 9)), dict(k="scale", n=2)))
        if f.isLazy() and fn["k"] == "rev":
            fn = dict(k="shift", n=1)
        if rng.random() < 0.4:
            a = rng.randint(-2, 5)
            interval = [a, a + rng.randint(1, 5)]
        if rng.random() < 0.5:
            newid = "NEW"
    tf = {"same": lambda c: c, "shift": lambda c: c + fn["n"], "rev": lambda c: fn["n"] - c, "scale": lambda c: c * fn["n"]}[fn["k"]]

    def go():
        r = dict(zip(("and", "or", "xor", "sub"), (lambda: f & g, lambda: f | g, lambda: f ^ g, lambda: f - g))).get(k)
        if r:
            x = r()
        elif k == "populate":
            x = z << g
        elif k == "intersection":
            x = Fiber.intersection(f, g, h)
        elif k == "union":
            x = Fiber.union(f, g, h)
        elif k == "leader-follower":
            x = Fiber.intersection(f, g, style="leader-follower")
        elif k == "prune":
            x = f.prune(lambda i, c, p: i % 2 == 0)
        else:
            x = f.project(tf, interval=tuple(interval) if interval else None, rank_id=newid)
        return x, rid(x.getRankAttrs().getId()), act(x)
    err, r = ctx.call(go)
    if err:
        if k == "leader-follower" and (f.isLazy() or g.isLazy()):
            return
        r = (None, [], [[0], [0]])
    ctx.emit(dict(op="lazy", kind=k, err=err, rid=r[1], lo=r[2][0], hi=r[2][1], wantid=wantid, wantlo=flat(lo), wanthi=flat(hi),
                  fn=fn, interval=interval, newid=[newid] if newid else []), key=(k, repr(fn), repr(interval), wantid[0], lo, hi))


def gen(ctx):
    rng = ctx.rng
    chains(ctx, ctx.share(2000, 20000), 4, lambda *a: transform(ctx, *a),
           only=["split", "split", "swizzle", "swizzle", "swap", "flatten", "flatten", "unflatten", "unflatten", "merge", "div",
                 "floordiv", "updpay", "deepcopy"], exo=0.06)
    # splits of splits: partitions whose active range does not start at a boundary
    chains(ctx, ctx.share(800, 8000), 3, lambda *a: transform(ctx, *a), only=["split", "split", "split", "div", "floordiv"],
           kinds=["fiber", "fiber", "noshape", "unc"])
    for _ in range(ctx.share(1500, 15000)):
        construct(ctx, rng)
    for _ in range(ctx.share(3000, 30000)):
        loose(ctx, rng)
    for _ in range(ctx.share(1000, 10000)):
        ctx.call(join, ctx, rng)
    for _ in range(ctx.share(3000, 30000)):
        lazy(ctx, rng)


if __name__ == "__main__":
    cfg = """SPECIFICATION Spec
CONSTANTS D = %d
 S = %d
 MaxOps = %d
INVARIANTS Parallel EveryPointInside Undone
CHECK_DEADLOCK FALSE
"""
    vt.main("C14", gen, "Trace_C14",
            mc=[dict(name="attributes-3x2", module="MC_Attrs", cfg=cfg % (3, 2, 3)),
                dict(name="attributes-3x3", module="MC_Attrs", cfg=cfg % (3, 3, 4), thorough_only=True,
                     args=("-workers", "4"), timeout=800)],
            rule="constructors, transforms, joins and lazy fibers with the attributes they report; distinct by operation and operand")
