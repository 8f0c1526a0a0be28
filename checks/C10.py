"""C10: value-returning operations and observers never disturb or alias their operands."""
import hashlib
import io
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vt
from machine import *
import xform
from xform import tinfo, chains, apply, rand_tensor, rand_op, rid, after
from fibertree.model import Format
from fibertree.graphics.tensor_image import TensorImage


def raw(x, ids):
    """The tree and the rank lists, read through plain attributes only."""
    if isinstance(x, Tensor):
        return dict(tree=enc(root_of(x), ids), book=book(x, ids) or xform.NOBOOK)
    r = dict(tree=enc(x, ids), book=xform.NOBOOK)
    if isinstance(x, Fiber) and x.getOwner() is not None:
        q, out = x.getOwner(), []
        while q is not None:
            out.append([ids(f) for f in q.getFibers()])
            q = q.getNextRank()
        r["book"] = dict(xform.NOBOOK, lists=out)
    return r


def all_fibers(x):
    r = root_of(x) if isinstance(x, Tensor) else x
    out, todo = [], [r]
    while todo:
        f = todo.pop()
        if isinstance(f, Fiber) and not f.isLazy():
            out.append(f)
            todo += [Payload.get(p) for p in f.payloads]
    return out


def mutate(rng, x, d, n=3):
    """A few public mutations somewhere in x; refusals do not matter."""
    for _ in range(n):
        fs = all_fibers(x)
        try:
            if isinstance(x, Tensor) and (rng.random() < 0.35 or not fs):
                k = rng.randrange(6)
                names = x.getRankIds()
                if k == 0:
                    x.setFormat(rng.choice(names), rng.choice("UC"))
                elif k == 1:
                    x.setDefault(rng.choice((3, 8)))
                elif k == 2:
                    x.setName("changed")
                elif k == 3:
                    x.setMutable(not x.isMutable())
                elif k == 4:
                    x.setColor("blue")
                elif isinstance(root_of(x), Payload):
                    root_of(x).__ilshift__(99)
                else:
                    rng.choice(x.ranks).getAttrs().setFormat(rng.choice("UC"))
                continue
            f = rng.choice(fs)
            k = rng.randrange(10)
            leaf = [p for p in f.payloads if isinstance(p, Payload)]
            if k <= 2 and leaf:
                p = rng.choice(leaf)
                if rng.random() < 0.5:
                    p <<= 77
                else:
                    p += 5
            elif k == 3:
                f.clear()
            elif k == 4:
                f.setActive((0, 1))
            elif k == 5:
                f.getRankAttrs().setFormat(rng.choice("UC"))
            elif k == 6:
                c = f.coords[-1]
                c = (c[0] + 1,) + c[1:] if isinstance(c, tuple) else c + 1
                f.append(c, 9 if leaf else Fiber())
            elif k == 7:
                r = f.getPayloadRef(rng.randrange(8))
                if isinstance(r, Payload):
                    r <<= 66
            elif k == 8 and leaf:
                f[rng.randrange(len(f.coords))] = 55
            elif k == 9:
                f.setDefault(8) if leaf else f.coords.pop() and f.payloads.pop()
        except Exception:
            pass


def value(ctx, what, operands, d, go, raw_op=None):
    """Record one value-returning operation and what later mutations show."""
    rng = ctx.rng
    ids = Ids()
    ops = [dict(raw0=raw(x, ids)) for x in operands]
    for o, x in zip(ops, operands):
        o["pre"] = tinfo(x, ids, True)
    err, R = ctx.call(go)
    for o, x in zip(ops, operands):
        o["raw1"] = raw(x, ids)
        o["post"] = tinfo(x, ids, True)
        o["objs"] = o["post"]["objs"]
    now = tinfo(R, ids, True)
    # the result as it is, then mutate one side and look at the other
    side = rng.random() < 0.5
    none = dict(objs=now["objs"], now={}, later={})
    if err == "" and R is not None and not isinstance(R, bool):
        if side:
            mutate(rng, R, d, rng.randint(1, 4))
            for o, x in zip(ops, operands):
                o["later"] = tinfo(x, ids, True)
            none["now"] = none["later"] = {}
        else:
            mutate(rng, operands[0] if rng.random() < 0.5 else operands[-1], d, rng.randint(1, 4))
            none = dict(objs=now["objs"], now=now, later=tinfo(R, ids, True))
            for o in ops:
                o["later"] = o["post"]
    else:
        for o in ops:
            o["later"] = o["post"]
    for o in ops:          # keep the records small
        if o["pre"] == o["post"] and o["raw0"] == o["raw1"]:
            o["raw0"] = o["raw1"] = {}
            if o["later"] == o["post"]:
                o["pre"] = o["post"] = o["later"] = {"same": o["post"]["tree"]}
    if none["now"] == none["later"]:
        none["now"] = none["later"] = {}
    ctx.emit(dict(op="value", what=what, err=err, d=list(val(d)), ops=ops, res=none, raw=raw_op or {}),
             key=(what, repr(ops[0]["post"])))
    ctx.notes["value:" + what.split("-")[0]] += 1
    return err, R


def reads(rng, x, d, ctx):
    """(name, thunk) for the observers of x."""
    f = root_of(x) if isinstance(x, Tensor) else x
    T = isinstance(x, Tensor)
    fs = [g for g in all_fibers(x)]
    D = len(x.ranks) if T else None
    out = []

    def add(name, fn):
        out.append((name, fn))

    def drain(it, depth=2):
        for cp in it:
            if depth and isinstance(cp, CoordPayload):
                q = Payload.get(cp.payload)
                if isinstance(q, Fiber) and rng.random() < 0.6:
                    drain(q, depth - 1)
    if T:
        add("attributes", lambda: tinfo(x, Ids()))
        add("str", lambda: (str(x), repr(x), format(x)) and None)
        add("print", lambda: x.print())
        add("equality", lambda: x == x)
        add("equality-copy", lambda: x == copymod.deepcopy(x))
        add("countValues", lambda: x.countValues())
        add("iter-tensor", lambda: (drain(x), list(reversed(x))))
        add("getitem-tensor", lambda: (x[0], x[-1], x[0:2], x[(0,) * max(D, 1)]))
        add("getShape-some", lambda: ([x.getShape(i) for i in x.getRankIds()], x.getShape(x.getRankIds()[:2]),
                                      x.getShape(authoritative=True), [x.getFormat(i) for i in x.getRankIds()]))
        add("dump", lambda: x.dump("dump.yaml"))
        add("getDepth", lambda: x.getDepth())
        for r in x.ranks:
            add("rank-str", lambda: (str(r), repr(r), r.getShape(), r.getShape(authoritative=True), r.getDefault(), r.getRankIds()))
        if D:
            add("getPayload", lambda: x.getPayload(*[rng.randrange(6) for _ in range(rng.randint(1, D))]))

            def foot():
                names = x.getRankIds()
                F = Format(x, {n: dict(format=rng.choice("CU"), cbits=3, pbits=5, fhbits=2, rhbits=1) for n in names})
                F.getTensor(), F.getSubTree()
                F.getFiber(), F.getRank(names[-1])
                for c in f.coords[:2]:
                    if D > 1:
                        F.getSubTree(c), F.getFiber(c)
            add("footprint", foot)
            add("footprint", foot)
    if isinstance(f, Fiber) and not f.isLazy():
        g = rng.choice(fs)
        h = rng.choice(fs)
        cs = list(g.coords) + [0, 1, 5]
        c = rng.choice(cs)
        lo, hi = sorted((rng.randrange(6), rng.randrange(6)))
        start = rng.randrange(len(g.coords)) if g.coords else None
        add("getPayload", lambda: g.getPayload(c))
        add("getPayload-default", lambda: g.getPayload(c, default=rng.choice((None, 4))))
        add("getPayload-deep", lambda: g.getPayload(*[rng.choice(cs) for _ in range(g.getDepth())]))
        add("getPayload-noalloc", lambda: g.getPayload(c, allocate=False))
        add("getPosition", lambda: (g.getPosition(c), g.getPosition(c, start_pos=0)))
        add("getitem", lambda: (g[0], g[-1], g[0:1]))
        deep = g.getDepth() if g.coords else 1
        add("getitem-deep", lambda: g[tuple(rng.choice((0, 0, -1, slice(0, 2), slice(None, None, 2))) for _ in range(rng.randint(1, deep)))])
        add("getitem-element", lambda: g[0][0] if deep > 1 else g[(0,)])
        add("element-arithmetic", lambda: [(q + 1, q * 2, q == 1, bool(q.payload)) for q in g] if deep == 1 else None)
        add("len", lambda: (len(g), g.isEmpty(), g.countValues(), g.countValues(recursive=False)))
        add("minmax", lambda: (g.minCoord(), g.maxCoord()))
        add("shape", lambda: (g.getShape(), g.getShape(all_ranks=False), g.getShape(authoritative=True), g.estimateShape(),
                              g.estimateShape(all_ranks=False), g.getDepth(), g.getRankIds(), g.getActive()))
        add("default", lambda: (g.getDefault(), g.getRankAttrs().getDefault()))
        add("str", lambda: (str(g), repr(g), format(g, "n"), f"{g:(02,03)n*}"))
        add("print", lambda: g.print())
        add("iter", lambda: drain(g))
        add("reversed", lambda: list(reversed(g)))
        add("iterOccupancy", lambda: drain(g.iterOccupancy()))
        add("iterShape", lambda: drain(g.iterShape()))
        add("iterActive", lambda: drain(g.iterActive()))
        add("iterActiveShape", lambda: drain(g.iterActiveShape()))
        add("iterRange", lambda: drain(g.iterRange(lo, hi)))
        add("iterRangeShape", lambda: drain(g.iterRangeShape(lo, hi, rng.randint(1, 2))))
        add("iterOccupancy-start", lambda: drain(g.iterOccupancy(start_pos=start)))
        add("coiterShape", lambda: list(Fiber.coiterShape([g, h])))
        add("coiterActiveShape", lambda: list(Fiber.coiterActiveShape([g, h])))
        add("coiterRangeShape", lambda: list(Fiber.coiterRangeShape([g, h], lo, hi)))
        add("and", lambda: drain(g & h))
        add("or", lambda: drain(g | h))
        add("or", lambda: [(a.payload, b) for a in (f | f) for b in ([] if not isinstance(a.payload[1], Fiber)
                                                                     else list(a.payload[1] | a.payload[2]))])
        add("xor", lambda: drain(g ^ h))
        add("sub", lambda: drain(g - h))
        add("nested", lambda: drain(g & (h | g)))
        add("intersection", lambda: drain(Fiber.intersection(g, h, g)))
        add("leader-follower", lambda: drain(Fiber.intersection(g, h, style="leader-follower")))
        add("union", lambda: drain(Fiber.union(g, h, g)))
        add("populate-source", lambda: [1 for _ in Fiber([], [], default=g.getDefault()) << g])
        add("project", lambda: list(g.project(lambda q: q + 1)))
        add("project-interval", lambda: list(g.project(lambda q: 5 - q, interval=(lo, hi))))
        add("prune", lambda: list(g.prune(lambda i, q, p: i % 2 == 0)))
        add("equality", lambda: (g == h, g != h, g == copymod.deepcopy(g)))
        add("uncompress", lambda: g.uncompress())
        add("uncompress-shape", lambda: f.uncompress(shape=f.getShape()))
        add("fiber2dict", lambda: g.fiber2dict())
        add("dump", lambda: g.dump("f.yaml"))
        add("getCoords", lambda: (g.getCoords(), g.getPayloads(), list(g.iterShapeCoords())))
        add("nonEmpty", lambda: g.nonEmpty())
        add("unzip", lambda: g.unzip())
        add("fromLazy", lambda: Fiber.fromLazy(g & h))
        add("getRange", lambda: g.getRange(lo, hi - lo + 1))

        def collect(fn):
            def go():
                Metrics.beginCollect(os.path.join(ctx.scratch, "m"))
                try:
                    fn()
                finally:
                    Metrics.endCollect()
            return go
        for name, fn in rng.sample(out, 4):
            add("collecting-" + name, collect(fn))
    return out


def read(ctx, what, x, fn):
    ids = Ids()
    pre = raw(x, ids)
    err, _ = ctx.call(fn)
    post = raw(x, ids)
    ctx.notes["read:" + what] += 1
    if err:
        ctx.notes["read-refused:" + what.replace("collecting-", "") + ":" + err] += 1
    ctx.emit(dict(op="read", what=what, err=err, pre=pre, post=post if post != pre else pre), key=(what, repr(pre["tree"])))


def render(ctx, x, style, hl):
    ids = Ids()
    pre = raw(x, ids)

    def once():
        im = TensorImage(x, style=style, extent=(24, 40), **({"highlights": copymod.deepcopy(hl)} if hl else {})).im
        return hashlib.sha1(im.tobytes()).hexdigest() + str(im.size)
    e1, a = ctx.call(once)
    e2, b = ctx.call(once)
    if e1:
        ctx.notes["render-refused:" + style + ":" + e1] += 1
    ctx.emit(dict(op="render", style=style, err=e1, pre=pre, post=raw(x, ids), im1=[e1, a or ""], im2=[e2, b or ""]),
             key=(style, repr(pre["tree"])))


def owned_fiber(rng, f, D, nc, d):
    k = rng.random()
    if k < 0.5:
        return f, None
    T = Tensor.fromFiber(list("ABCD"[:D]), f, default=d, shape=[nc + 1] * D if k < 0.8 else None)
    return T.getRoot(), T


def gen(ctx):
    rng = ctx.rng
    # chains of tensor transforms, with mutations of either side afterwards
    n = ctx.share(1600, 8000)
    for _ in range(n):
        exotic(rng, 0.06)
        err, r = ctx.call(rand_tensor, rng, None, None, None, ctx.scratch)
        if r is None:
            continue
        t, kind = r
        for _ in range(3):
            op = rand_op(rng, t)
            if op is None:
                continue
            if rng.random() < 0.1:
                op = dict(op, o=rng.choice(("deepcopy", "deepcopy")), depth=0, levels=0)
            err, R = value(ctx, op["o"], [t.T], t.d, lambda: apply(t.T, op), op)
            if err or not isinstance(R, Tensor):
                break
            # go on from a fresh transform, since one of the two sides has been mutated
            err, R = ctx.call(apply, copymod.deepcopy(t.T), op)
            if err or not isinstance(R, Tensor) or len(repr(R)) > 6000:
                break
            t = after(t, op, R)
    # fiber-level operations
    exotic(rng, 0)
    for _ in range(ctx.share(3200, 16000)):
        D = rng.choice((1, 1, 2, 2, 3))
        nc = size(rng, D, (2, 3, 5), 0.03)
        d = rng.choice((0, 0, 7))
        f, T = owned_fiber(rng, mk(rtree(rng, D, nc, [d, 1]), [d, 1]), D, nc, d)
        ops = [f]
        k = rng.choice(("split", "split", "swap", "flatten", "merge", "unflatten", "copy", "copyfree", "deepcopy", "add",
                        "add", "adds", "mul", "muls", "radd", "rmul", "nonEmpty", "div", "floordiv", "fromFiber", "tcopy"))
        g, _ = owned_fiber(rng, mk(rtree(rng, D, nc, [d, 1]), [d, 1]), D, nc, d)
        if rng.random() < 0.15:
            g = f
        if k == "split":
            op = dict(o="split", depth=rng.randrange(D), byid=False, **xform.rsplit(rng, nc))
            go = lambda: apply(f, op)
        elif k in ("swap", "flatten", "merge"):
            if D < 2:
                continue
            lv = rng.randint(1, D - 1)
            if k == "swap":
                go = lambda: f.swapRanks()
            elif k == "flatten":
                st = rng.choice(("tuple", "pair"))
                go = lambda: f.flattenRanks(depth=rng.choice((0, 0, D - 1 - lv)), levels=lv, style=st)
            else:
                st = rng.choice(("absolute", "relative", "tuple"))
                go = lambda: f.mergeRanks(depth=rng.choice((0, 0, D - 1 - lv)), levels=lv, style=st)
        elif k == "unflatten":
            if D < 2:
                continue
            err, f2 = ctx.call(lambda: f.flattenRanks(levels=D - 1))
            if err:
                continue
            ops = [f2]
            go = lambda: f2.unflattenRanks(levels=rng.randint(1, D - 1))
        elif k == "copy":
            go = lambda: f.copy()
        elif k == "copyfree":
            go = lambda: f.copy(preserve_owner=False)
        elif k == "deepcopy":
            go = lambda: copymod.deepcopy(f)
        elif k in ("add", "mul"):
            ops = [f, g]
            if D > 1:
                continue
            go = (lambda: f + g) if k == "add" else (lambda: f * g)
        elif k in ("adds", "muls", "radd", "rmul"):
            if D > 1:
                continue
            s = rng.choice((0, 1, 3))
            box = Payload(s) if rng.random() < 0.4 else s
            if isinstance(box, Payload):
                ops = [f, box]
            go = dict(adds=lambda: f + box, muls=lambda: f * box, radd=lambda: s + f, rmul=lambda: s * f)[k]
            if k in ("radd", "rmul"):
                ops = [f]
        elif k == "nonEmpty":
            go = lambda: f.nonEmpty()
        elif k == "div":
            go = lambda: f / rng.randint(1, 4)
        elif k == "floordiv":
            go = lambda: f // rng.randint(1, 4)
        elif k == "fromFiber":
            if T is None:
                continue
            go = lambda: Tensor.fromFiber(list("KLMN"[:D]), f, shape=[nc + 2] * D, default=d)
        elif k == "tcopy":
            if T is None:
                continue
            ops = [T]
            go = lambda: copymod.deepcopy(T)
        # an operand may be a sub-fiber of a larger tree
        value(ctx, "fiber-" + k, ops, d, go)
    # leaf values made of boxes and fibers
    def leafy():
        return rng.choice((lambda: Payload((Payload(rng.randint(1, 4)), Payload(2))), lambda: Payload((Payload(5), Fiber([1], [2]))),
                           lambda: Payload((1, 2)), lambda: 3, lambda: Payload((Payload((Payload(1), 2)), 3))))()
    for _ in range(ctx.share(1000, 5000)):
        own = rng.random() < 0.5
        f = Fiber(*zip(*[(c, Fiber(*zip(*[(k, leafy()) for k in sorted(rng.sample(range(5), rng.randint(1, 3)))]), default=0))
                         for c in sorted(rng.sample(range(4), rng.randint(1, 3)))]))
        f = Fiber(list(f.coords), list(f.payloads))
        if own:
            T = Tensor.fromFiber(["M", "K"], f, shape=[5, 6])
            f = T.getRoot()
        k = rng.choice(("split", "split", "swap", "flatten", "merge", "copy", "copyfree", "deepcopy", "nonEmpty", "div", "again", "tsplit",
                        "tswizzle", "tflatten", "tcopy", "tcoords"))
        ops = [f]
        if k[0] == "t" and k != "t":
            if not own:
                continue
            ops = [T]
        op = dict(o="split", depth=rng.randrange(2), byid=False, **xform.rsplit(rng, 4))
        go = dict(split=lambda: apply(f, op), swap=lambda: f.swapRanks(), flatten=lambda: f.flattenRanks(),
                  merge=lambda: f.mergeRanks(style="absolute"), copy=lambda: f.copy(), copyfree=lambda: f.copy(preserve_owner=False),
                  deepcopy=lambda: copymod.deepcopy(f), nonEmpty=lambda: f.nonEmpty(), div=lambda: f / 2,
                  again=lambda: f.flattenRanks().unflattenRanks(), tsplit=lambda: apply(T, op), tswizzle=lambda: T.swizzleRanks(["K", "M"]),
                  tflatten=lambda: T.flattenRanks(), tcopy=lambda: copymod.deepcopy(T),
                  tcoords=lambda: T.updateCoords(lambda i, c, p: c + 1))[k]
        value(ctx, "parts-" + k, ops, 0, go)
    # observers
    for _ in range(ctx.share(520, 2600)):
        exotic(rng, 0.06)
        err, r = ctx.call(rand_tensor, rng, None, None, None, ctx.scratch)
        if r is None:
            continue
        t, kind = r
        if rng.random() < 0.35:
            op = rand_op(rng, t)
            if op is not None:
                err, R = ctx.call(apply, t.T, op)
                if not err and isinstance(R, Tensor):
                    t = after(t, op, R)
        x = t.T
        if rng.random() < 0.2 and t.D >= 1:
            x = mk(enc(root_of(t.T)), list(val(t.d))) if all(s == "int" for s in t.styles) else x
        if len(repr(enc(root_of(x) if isinstance(x, Tensor) else x))) > 5000:
            continue
        rs = reads(rng, x, t.d, ctx)
        for name, fn in rng.sample(rs, min(len(rs), 22)):
            read(ctx, name, x, fn)
    exotic(rng, 0)
    for _ in range(ctx.share(160, 1600)):
        err, r = ctx.call(rand_tensor, rng, rng.choice((1, 2, 2, 3, 3, 4)), 3, None, ctx.scratch)
        if r is None:
            continue
        t, kind = r
        x = t.T
        if rng.random() < 0.25:
            x = root_of(x)
        hl = {}
        if rng.random() < 0.4:
            hl = {"PE": [tuple(rng.randrange(3) for _ in range(t.D)) for _ in range(2)]}
        render(ctx, x, rng.choice(("tree", "uncompressed", "tree+uncompressed")), hl)


if __name__ == "__main__":
    cfg = """SPECIFICATION Spec
CONSTANTS N = %d
 Share = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
    vt.main("C10", gen, "Trace_C10",
            mc=[dict(name="isolation-4", module="MC_Alias", cfg=cfg % (4, "FALSE", "Isolated StaysDisjoint")),
                dict(name="sharing-4", module="MC_Alias", cfg=cfg % (4, "TRUE", "SharingIsVisible")),
                dict(name="isolation-5", module="MC_Alias", cfg=cfg % (5, "FALSE", "Isolated StaysDisjoint"),
                     thorough_only=True, args=("-workers", "4"), timeout=800)],
            rule="value-returning operations (operands, result and a later mutation of one side), observers and renderings; "
                 "distinct by operation and operand state")
