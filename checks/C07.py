"""C07: traversal modes."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vt
from machine import *

KEEP = []


def strip(n):
    return {k: ([strip(p) for p in v] if k == "p" else v) for k, v in n.items() if k != "i"}


def E(x, *a, **kw):
    return dict(dict(x=x, a=list(a), o=1), **kw)


# ---- the same expressions on the library -------------------------------------

def tfn(tr):
    k = tr["k"]
    if k == "affine":
        s, o = tr["s"], tr["o"]
        return lambda c: tuple(s * x + o for x in c) if isinstance(c, tuple) else s * c + o
    if k == "affine2":
        return lambda c: (tr["s"] * c[0] + tr["o"], tr["s"] * c[1] + tr["o2"])
    if k == "merge":
        return lambda c: sum(x * w for x, w in zip(c, tr["ws"]))
    return lambda c: (c // tr["n"], c % tr["n"])


def pfn(pr):
    k = pr["k"]
    c0 = lambda c: c[0] if isinstance(c, tuple) else c
    if k == "mod":
        return lambda i, c, p: c0(c) % pr["n"] == pr["r"]
    if k == "idx":
        return lambda i, c, p: i % pr["n"] == pr["r"]
    if k == "below":
        return lambda i, c, p: c0(c) < pr["n"]
    if k == "stop":
        return lambda i, c, p: None if c0(c) == pr["n"] else c0(c) % 2 == pr["r"]
    if k == "val":
        return lambda i, c, p: p > pr["n"]
    return lambda i, c, p: True


def co(c):
    return None if c == [] else crd(c)


def real(e, fs):
    """The iterable an expression denotes (a fiber, or a generator)."""
    x = e["x"]
    ref = "Ref" if e.get("ref") else ""
    kw = {}
    if e.get("sp") is not None:
        kw["start_pos"] = Payload(e["sp"]) if e.get("spbox") else e["sp"]
    if e.get("notick"):
        kw["tick"] = False
    if x in ("default", "leaf", "occ", "range", "active", "shape", "ashape", "rshape"):
        f = fs[e["o"] - 1]
        if x in ("default", "leaf"):
            return f
        if x == "occ":
            return f.iterOccupancy(**kw)
        if x == "range":
            return f.iterRange(co(e["lo"]), co(e["hi"]), **kw)
        if x == "active":
            return f.iterActive(**kw)
        if x == "shape" and e.get("unc"):
            return f.iterUncompressed()
        if x == "shape":
            return getattr(f, "iterShape" + ref)(**kw)
        if x == "ashape":
            return getattr(f, "iterActiveShape" + ref)(**kw)
        st = [] if e["st"] == 1 and e.get("nostep") else [e["st"]]
        return getattr(f, "iterRangeShape" + ref)(e["lo"][0], e["hi"][0], *st, **kw)
    if x == "coshape":
        return getattr(Fiber, "coiterShape" + ref)(fs)
    if x == "coashape":
        return getattr(Fiber, "coiterActiveShape" + ref)(fs)
    if x == "corshape":
        return getattr(Fiber, "coiterRangeShape" + ref)(fs, e["lo"][0], e["hi"][0], *([] if e["st"] == 1 else [e["st"]]))
    g = real(e["a"][0], fs)
    if x == "project":
        if e.get("ex") is not None:
            kw["coord_ex"] = crd(e["ex"])
        if e.get("id"):
            kw["rank_id"] = e["id"]
        f = None if e["tr"] == dict(k="affine", s=1, o=0) and e.get("nofn") else tfn(e["tr"])
        if e.get("gr"):
            a, b = [crd(c) for c in e["iv"]]
            return g.getRange(a, b - a, trans_fn=f, **kw) if e["gr"] == "size" else g.getRange(a, end_coord=b, trans_fn=f, **kw)
        return g.project(trans_fn=f, interval=tuple(crd(b) for b in e["iv"]) if e["iv"] else None, **kw)
    if x == "lrange":
        return g.iterRange(co(e["lo"]), co(e["hi"]))
    if x == "prune":
        return g.prune(trans_fn=pfn(e["pr"]), **kw)
    h = real(e["a"][1], fs)
    return g & h if x == "and" else g - h


def operand(f, d, ids):
    a = f.getRankAttrs()
    o = f.getOwner()
    up = "any"
    if o is not None:
        up = "yes" if o.getNextRank() is not None else "no"
    elif f.payloads:
        up = "yes" if isinstance(f.payloads[0], Fiber) else "no"
    act = f.getActive()
    shape = f.getShape(all_ranks=False)
    alo, ahi = flat(act[0]), flat(act[1])
    return dict(t=enc(f, ids), d=list(val(d)), up=up, fmt=a.getFormat(), act=[alo[0], ahi[0]], alo=alo, ahi=ahi,
                shape=shape if isinstance(shape, int) else 0)


def tbook(f, T, ids):
    return [] if T is None else [dict(t=enc(root_of(T), ids), b=book(T, ids))]


def run(ctx, e, fs, Ts, d, h, ref=False, take=-1, collect=False, eager=False, may=False, rep=False):
    """rep: only that the traversal can be repeated is judged (the meaning of the start position is not fixed)"""
    ids = Ids()
    pos = [ctx.rng.randrange(len(f.coords)) if f.coords and ctx.rng.random() < 0.5 else -1 for f in fs]
    ops = [operand(f, d, ids) for f in fs]
    r = dict(out=[], again=[], againp=[], eager=node("N"), eq=False)
    lazy = e["x"] in ("project", "prune", "and", "sub", "coshape", "coashape", "corshape")

    def go():
        if collect:
            Metrics.beginCollect("c07")
            for i in ("R0", "K", "R1"):
                for ty in ("iter", "project_0"):
                    Metrics.trace(i, type_=ty)
        try:
            it = real(e, fs)
            if lazy:
                assert it.isLazy()
            out = []
            if take < 0:
                for c, p in it:
                    out.append((c, p))
            elif take:
                for c, p in it:
                    out.append((c, p))
                    if len(out) == take:
                        break
            r["out"] = encpairs(out, ids)
            again = out
            for f, i in zip(fs, pos):
                if i >= 0:
                    f.setSavedPos(i)
            if lazy and take < 0 or (not lazy and not ref and take < 0):
                again = [(c, p) for c, p in (it if lazy else real(e, fs))]
            r["again"] = [flat(c) for c, _ in again]
            r["againp"] = [enc(p) for _, p in again]
            if eager and lazy and take < 0:
                g = Fiber.fromLazy(it)
                r["eager"] = enc(g)
                r["eq"] = bool(g == it) and bool(it == g)
        finally:
            if collect:
                Metrics.endCollect()
    err, _ = ctx.call(go)
    ctx.notes[e["x"] + ("Ref" if ref else "")] += 1
    ctx.emit(dict(op="iter", e=e, ops=ops, h=h, ref=ref, take=take, err=err, mayrefuse=may, rep=rep,
                  post=[enc(f, ids) for f in fs], book=[tbook(f, T, ids) for f, T in zip(fs, Ts)], **r),
             key=(repr(e), repr([o["t"] for o in ops]), take) if ops[0]["t"]["c"] else None)


def leafs(n, vals):
    out = [([], [])]
    for c in range(n):
        out = out + [(cs + [[c]], ps + [node("B", v=[v, 1])]) for cs, ps in out for v in vals]
    return [node("F", cs, ps, g="i" if cs else "") for cs, ps in out]


def dress(rng, t, h, d, n, fmt=True):
    """A fiber with this tree: free, root of a tensor, or inside a tensor."""
    k = rng.random()
    ok = h == 1 or (t["c"] and all(p["c"] for p in t["p"]))
    if k < 0.35 and ok:
        kw = {}
        if rng.random() < 0.5:
            kw["shape"] = n + rng.randint(0, 2)
        f = Fiber([crd(c) for c in t["c"]], [mk(p, d) for p in t["p"]], default=num(d) if h == 1 else Fiber, **kw) \
            if h == 1 else mk(t, d)
        T = None
        if fmt and rng.random() < 0.25:
            f.getRankAttrs().setFormat("U")
        f.getRankAttrs().setId("K")
    else:
        up = rng.random() < 0.3
        tt = t if not up else node("F", [[0], [2]], [t, t], g="i")
        D = h + up
        kw = {}
        if rng.random() < 0.7:
            kw["shape"] = ([3] if up else []) + [n + rng.randint(0, 2)] + [4] * (h - 1)
        T = Tensor.fromFiber(["R%d" % i for i in range(D)], mk(tt, d), default=num(d), **kw)
        f = root_of(T)
        if up:
            f = f.payloads[rng.randrange(2)]
        if fmt and rng.random() < 0.25:
            T.setFormat("R%d" % (1 if up else 0), "U")
        KEEP.append(T)
    if rng.random() < 0.3:
        lo = rng.randint(0, n)
        f.setActive((lo, rng.randint(lo, n + 1)))
    return f, T


def legal(rng, t, d, lo):
    """Legal start positions of a traversal from lo."""
    out = []
    for p in range(len(t["c"])):
        if all(isempty(t["p"][i], d) or (lo and t["c"][i] < lo) for i in range(p)):
            out.append(p)
    return out


def isempty(n, d):
    return all(isempty(p, d) for p in n["p"]) if n["k"] == "F" else n["v"] == d


def gen(ctx):
    rng = ctx.rng
    d0 = [0, 1]
    # every leaf fiber over 4 coordinates: all ranges, steps, start positions, modes
    for t in leafs(4, (0, 2)):
        for lo in [[]] + [[i] for i in range(-1, 5)]:
            for hi in [[]] + [[i] for i in range(-1, 6)]:
                if ctx.mine() and (ctx.thorough or rng.random() < 0.6):
                    f, T = dress(rng, t, 1, d0, 4)
                    sps = legal(rng, t, d0, lo)
                    run(ctx, E("range", lo=lo, hi=hi), [f], [T], 0, 1)
                    for sp in sps:
                        run(ctx, E("range", lo=lo, hi=hi, sp=sp), [f], [T], 0, 1)
                    if lo and hi and lo[0] >= 0:
                        st = rng.randint(1, 3)
                        run(ctx, E("rshape", lo=lo, hi=hi, st=st, nostep=rng.random() < 0.5), [f], [T], 0, 1)
                        run(ctx, E("rshape", lo=lo, hi=hi, st=st, ref=True), [f], [T], 0, 1, ref=True)
    for t in leafs(3, (0, 2)):
        for s in (-3, -2, -1, 1, 2, 3):
            for o in (-2, 0, 3):
                for iv in [[]] + [[[a], [b]] for a in range(-5, 8, 2) for b in (a, a + 1, a + 3, a + 9)]:
                    if ctx.mine() and (ctx.thorough or rng.random() < 0.12):
                        f, T = dress(rng, t, 1, d0, 3)
                        run(ctx, E("project", E("leaf"), tr=dict(k="affine", s=s, o=o), iv=iv), [f], [T], 0, 1,
                            eager=f.getRankAttrs().getFormat() == "C")
    for _ in range(ctx.share(24000, 200000)):
        KEEP.clear()
        h = rng.choice((1, 1, 2, 3))
        n = size(rng, h, (2, 3, 5, 7) if h == 1 else (2, 3), 0.04)
        d = rng.choice((d0, d0, [5, 1], [-1, 1]))
        dv = num(d)
        k = rng.choice(["mode", "mode", "ref", "co", "project", "project", "prune", "nested", "tuple"])
        t = rtree(rng, h, n, d)
        collect = rng.random() < 0.08
        if k == "tuple":
            m = rng.choice((2, 3))
            cs = sorted(c for c in itertools.product(range(3), repeat=m) if rng.random() < 0.4)
            t = node("F", [list(c) for c in cs], [node("B", v=rng.choice((d, [2, 1], [3, 1]))) for _ in cs],
                     g="(" + "i" * m + ")")
            f = mk(t, d)
            T = None
            if rng.random() < 0.5:
                T = Tensor.fromFiber(["K"], f, shape=[(3,) * m], default=dv)
                f = root_of(T)
            b = lambda: [] if rng.random() < 0.25 else [rng.randrange(-1, 4) for _ in range(m)]
            x = rng.random()
            if x < 0.4:
                lo, hi = b(), b()
                e = E("range", lo=lo, hi=hi)
                sps = legal(rng, t, d, lo)
                if sps and rng.random() < 0.5:
                    e["sp"] = rng.choice(sps)
            elif x < 0.8:
                tr = rng.choice([dict(k="affine", s=rng.choice((1, 2, -1, -2)), o=rng.randint(-2, 2)),
                                 dict(k="merge", ws=[[9, 3, 1], [3, 1]][m == 2]),
                                 dict(k="merge", ws=[[-9, -3, -1], [-3, -1]][m == 2])] +
                                ([dict(k="affine2", s=rng.choice((1, -1)), o=rng.randint(-2, 2), o2=rng.randint(-2, 2))]
                                 if m == 2 else []))
                iv = []
                if rng.random() < 0.5:
                    w = 1 if tr["k"] == "merge" else m
                    a, c = sorted([rng.randint(-4, 12) for _ in range(w)] for _ in range(2))
                    iv = [a, c]
                if not cs:
                    continue        # nothing tells that the coordinates are tuples
                e = E("project", E("leaf"), tr=tr, iv=iv)
            else:
                e = E("prune", E("leaf"), pr=dict(k="mod", n=2, r=rng.randrange(2)))
            run(ctx, e, [f], [T], dv, 1)
            continue
        f, T = dress(rng, t, h, d, n)
        w = found(ctx, rng) if rng.random() < 0.12 else None
        if w is not None and w.T is not None:
            # a fiber of a tensor made by other constructors and transforms
            f, T, h, d = root_of(w.T), w.T, w.D, w.d
            while h > 1 and f.payloads and rng.random() < 0.5:
                f, h = rng.choice(f.payloads), h - 1
            t, dv, n = enc(f), num(d), max([5] + [c for c in f.coords])
            KEEP.append(T)
            if n > 40:
                continue
        collect = collect and f.getRankAttrs().getId() != "Unknown" and isinstance(f.getRankAttrs().getId(), str)
        fmt = f.getRankAttrs().getFormat()
        lo, hi = [rng.randint(-1, n)], [rng.randint(-1, n + 2)]
        alo, ahi = flat(f.getActive()[0]), flat(f.getActive()[1])
        take = rng.randint(0, 3) if rng.random() < 0.2 else -1
        if k == "mode":
            x = rng.choice(["default", "occ", "range", "active", "shape", "ashape", "rshape"])
            e = E(x, lo=lo if rng.random() < 0.8 else [], hi=hi if rng.random() < 0.8 else [])
            if x == "rshape":
                e.update(lo=[max(0, lo[0])], hi=hi, st=rng.randint(1, 3))
            first = {"occ": [], "range": e["lo"], "active": alo}.get(x)
            if first is not None and rng.random() < 0.4:
                sps = legal(rng, t, d, first)
                if sps:
                    e["sp"] = rng.choice(sps)
                    e["spbox"] = rng.random() < 0.3
            if x != "default" and rng.random() < 0.2:
                e["notick"] = True
            if x == "shape" and not collect and rng.random() < 0.3:
                e["unc"] = True
            run(ctx, e, [f], [T], dv, h, take=take, collect=collect)
        elif k == "ref":
            x = rng.choice(["shape", "ashape", "rshape"])
            e = E(x, lo=[max(0, lo[0])], hi=hi, st=rng.randint(1, 3), ref=True)
            if h > 1 and T is None:
                continue
            run(ctx, e, [f], [T], dv, h, ref=True, take=take, collect=collect)
        elif k == "co":
            fs, Ts = [f], [T]
            for _ in range(rng.randint(0, 2)):
                g, U = dress(rng, rtree(rng, h, n, d), h, d, n)
                fs.append(g)
                Ts.append(U)
            ref = rng.random() < 0.5
            if h > 1 and any(U is None for U in Ts):
                continue
            e = E(rng.choice(["coshape", "coashape", "corshape"]), lo=[max(0, lo[0])], hi=hi, st=rng.randint(1, 2), ref=ref)
            run(ctx, e, fs, Ts, dv, h, ref=ref, take=take)
        elif k == "project":
            s = rng.choice((1, 1, 2, 3, -1, -1, -2))
            o = rng.randint(-4, 4)
            iv = []
            if rng.random() < 0.6:
                a = rng.randint(min(o, s * n + o) - 1, max(o, s * n + o) + 1)
                iv = [[a], [a + rng.randint(0, 5)]]
            e = E("project", E("leaf"), tr=dict(k="affine", s=s, o=o), iv=iv)
            if rng.random() < 0.1 and not collect:
                e["tr"] = dict(k="split", n=2)
                e["iv"] = []
                s = 1
            if s > 0 and rng.random() < 0.35 and e["tr"]["k"] == "affine" and fmt == "C":
                sps = [p for p in range(len(t["c"])) if all(s * t["c"][i][0] + o < iv[0][0] if iv else isempty(t["p"][i], d)
                                                            for i in range(p))]
                if sps:
                    e["sp"] = rng.choice(sps)
            if rng.random() < 0.2:
                e["ex"] = [rng.randrange(3)]
            if collect:
                e["id"] = "Q"
            elif e["iv"] and e.get("ex") is None and rng.random() < 0.2:
                e["gr"] = rng.choice(("size", "end"))
            e["nofn"] = rng.random() < 0.5
            run(ctx, e, [f], [T], dv, h, take=take, eager=h == 1 and fmt == "C" and e["tr"]["k"] == "affine" and not collect,
                collect=collect)
        elif k == "prune":
            kinds = ["mod", "below", "stop", "all"]
            if h == 1:
                kinds.append("val")
            if not any(isempty(p, d) for p in t["p"]):
                kinds.append("idx")
            e = E("prune", E("leaf"), pr=rpr(rng, kinds, n))
            if rng.random() < 0.3 and fmt == "C" and e["pr"]["k"] != "idx":
                sps = legal(rng, t, d, [])
                if sps:
                    e["sp"] = rng.choice(sps)
            run(ctx, e, [f], [T], dv, h, take=take, eager=h == 1 and fmt == "C")
            if fmt == "C" and t["c"]:
                e = E("prune", E("leaf"), pr=rpr(rng, kinds + ["idx"], n), sp=rng.randrange(len(t["c"])))
                run(ctx, e, [f], [T], dv, h, rep=True)
        else:
            # lazy fibers of lazy fibers
            e = E("leaf")
            fs, Ts = [f], [T]
            for _ in range(rng.randint(2, 3)):
                r = rng.random()
                if r < 0.4:
                    a = rng.randint(-3, 6)
                    s = rng.choice((1, 2)) if e["x"] != "leaf" else rng.choice((1, 2, -1))
                    e = E("project", e, tr=dict(k="affine", s=s, o=rng.randint(-3, 3)),
                          iv=[] if rng.random() < 0.6 else [[a], [a + rng.randint(0, 6)]])
                elif r < 0.8:
                    e = E("prune", e, pr=rpr(rng, ["mod", "below", "stop", "all"], n))
                elif fmt == "C":
                    g, U = dress(rng, rtree(rng, h, n + 2, d), h, d, n + 2)
                    if g.getRankAttrs().getFormat() != "C":
                        continue
                    fs.append(g)
                    Ts.append(U)
                    b = dict(E("leaf"), o=len(fs))
                    e = E("sub", e, b) if rng.random() < 0.5 or ctx_and(e) else E("and", e, b)
            if fmt == "C" and e["x"] in ("project", "prune") and rng.random() < 0.3:
                e = E("lrange", e, lo=lo if rng.random() < 0.8 else [], hi=hi if rng.random() < 0.8 else [])
            run(ctx, e, fs, Ts, dv, h, take=take, eager=h == 1 and fmt == "C" and not ctx_and(e))
    # ascending ranges, each from the position the previous one saved
    for _ in range(ctx.share(4000, 30000)):
        h = rng.choice((1, 1, 2))
        n = size(rng, h, (3, 5, 8))
        d = rng.choice((d0, [5, 1]))
        t = rtree(rng, h, n, d)
        if not t["c"]:
            continue
        f, T = dress(rng, t, h, d, n, fmt=False)
        ids = Ids()
        t0 = enc(f, ids)
        steps = []
        bounds = sorted(rng.randint(0, n + 1) for _ in range(rng.randint(2, 5)))

        def go():
            f.setSavedPos(0)
            for a, b in zip(bounds, bounds[1:]):
                lo = a if rng.random() < 0.9 else max(0, a - 1)
                sp = f.getSavedPos()
                if rng.random() < 0.25:
                    # a lookup on the way also saves a position
                    try:
                        if rng.random() < 0.5:
                            f.getPayload(a, start_pos=sp)
                        else:
                            f.getPosition(a, start_pos=sp)
                    except (AssertionError, IndexError):      # (a hint may be refused)
                        pass
                    steps.append(dict(lo=[a], hi=[a + 1], sp=sp, out=[], saved=f.getSavedPos(), look=True))
                    sp = f.getSavedPos()
                    lo = max(lo, a + 1)
                s = dict(lo=[lo], hi=[b], sp=sp, out=[], saved=-1, look=False)
                steps.append(s)
                s["out"] = [flat(c) for c, _ in f.iterRange(lo, b, start_pos=sp)]
                s["saved"] = f.getSavedPos()
        err, _ = ctx.call(go)
        ctx.emit(dict(op="chain", t=t0, d=d, steps=steps, err=err, post=enc(f, ids)), key=(repr(t0["c"]), repr(bounds)))


def ctx_and(e):
    return e["x"] == "and" or any(ctx_and(a) for a in e["a"])


def rpr(rng, kinds, n):
    k = rng.choice(kinds)
    return {"mod": dict(k=k, n=2, r=rng.randrange(2)), "below": dict(k=k, n=rng.randint(0, n + 1)),
            "stop": dict(k=k, n=rng.randint(0, n + 1), r=rng.randrange(2)), "all": dict(k=k),
            "val": dict(k=k, n=rng.randint(0, 3)), "idx": dict(k=k, n=2, r=rng.randrange(2))}[k]


if __name__ == "__main__":
    cfg = """SPECIFICATION Spec
CONSTANTS N = %d
 NR = %d
INVARIANTS RangeIsSlice PrefixAlways SavedStaysValid ProjectAgrees InsertAgrees
%sCHECK_DEADLOCK FALSE
"""
    vt.main("C07", gen, "Trace_C07",
            mc=[dict(name="traverse-4", module="MC_Traverse", cfg=cfg % (4, 3, "")),
                dict(name="traverse-3-terminates", module="MC_Traverse", cfg=cfg % (3, 2, "PROPERTY Terminates\n")),
                dict(name="traverse-6", module="MC_Traverse", cfg=cfg % (6, 3, ""), thorough_only=True, timeout=850,
                     args=("-workers", "4"))],
            rule="traversals of fibers; distinct by expression and operand trees")
