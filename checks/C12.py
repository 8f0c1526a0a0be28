"""C12: equality, emptiness and counting depend on content only."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vt
from machine import *
from xform import rand_tensor, rand_op, apply, after


def content(n, d, pre=()):
    if n["k"] == "F":
        r = {}
        for c, p in zip(n["c"], n["p"]):
            r.update(content(p, d, pre + (tuple(c),)))
        return r
    return {} if n["v"] == d else {pre: n["v"]}


def noise(rng, n, d, depth, nc):
    """The same content with explicit defaults and empty sub-fibers added and removed."""
    if n["k"] != "F":
        return n
    el = {tuple(c): noise(rng, p, d, depth - 1, nc) for c, p in zip(n["c"], n["p"])}
    if all(len(c) == 1 for c in el):
        for c in range(nc + 1):
            if (c,) not in el and rng.random() < 0.25:
                x = node("B", v=d) if depth == 1 else node("F")
                if depth > 1 and rng.random() < 0.5:
                    x = noise(rng, x, d, depth - 1, nc)
                el[(c,)] = x
    for c in list(el):
        if not content(el[c], d) and rng.random() < 0.4:
            del el[c]
    cs = sorted(el)
    return node("F", [list(c) for c in cs], [el[c] for c in cs], g=n["g"] or "i")


def near(rng, n, d):
    """A change of one leaf or coordinate."""
    if n["k"] != "F":
        return dict(n, v=rng.choice(([5, 1], d, [n["v"][0] + 1, n["v"][1]])))
    if not n["c"]:
        return n
    i = rng.randrange(len(n["c"]))
    r = dict(n, c=list(n["c"]), p=list(n["p"]))
    k = rng.random()
    if k < 0.7:
        r["p"][i] = near(rng, n["p"][i], d)
    elif k < 0.85:
        del r["c"][i], r["p"][i]
    elif len(r["c"][i]) == 1:
        r["c"][-1] = [r["c"][-1][0] + 1]
    return r


def dress(rng, n, D, d, nc):
    """An object with this tree, owned or not, with whatever attributes."""
    k = rng.random()
    if D == 0:
        return None
    if k < 0.3:
        f = mk(n, d)
        if rng.random() < 0.3:
            f.getRankAttrs().setShape(nc + rng.randint(0, 4))
        if rng.random() < 0.3:
            f.getRankAttrs().setFormat("U")
        if rng.random() < 0.2:
            lo = rng.randrange(nc)
            f.setActive((lo, lo + rng.randint(1, nc)))
        return f
    kw = {}
    if rng.random() < 0.6:
        kw["shape"] = [nc + 1 + rng.randint(0, 3) for _ in range(D)]
    T = Tensor.fromFiber(list("MKNP"[:D]), mk(n, d), default=num(d), **kw)
    for i in T.getRankIds():
        if rng.random() < 0.4:
            T.setFormat(i, rng.choice("CU"))
    if rng.random() < 0.3:
        T.setName("n%d" % rng.randrange(3))
        T.setColor("blue")
    if rng.random() < 0.15:
        lo = rng.randrange(nc)
        T.getRoot().setActive((lo, lo + rng.randint(1, nc)))
    if k < 0.7:
        return T
    return T.getRoot()


def tree_of(x):
    return enc(root_of(x) if isinstance(x, Tensor) else x)


def change(rng, x, d):
    """Write some stored leaves in place; move or empty some fibers."""
    def go(f):
        for i, p in enumerate(f.payloads):
            if isinstance(p, Fiber):
                if rng.random() < 0.1:
                    p.clear()
                go(p)
            elif rng.random() < 0.4:
                p <<= rng.choice((num(d), num(d), 1, 2, 0))
        if f.coords and rng.random() < 0.1:
            f[-1] = CoordPayload(f.coords[-1] + 1, None)
    r = root_of(x) if isinstance(x, Tensor) else x
    if isinstance(r, Fiber):
        go(r)


def pair(ctx, x, y, dx, dy):
    if isinstance(x, Tensor) != isinstance(y, Tensor):
        x, y = [root_of(q) if isinstance(q, Tensor) else q for q in (x, y)]
    if isinstance(x, Tensor) and x.getRankIds() != y.getRankIds():
        return
    a, b = tree_of(x), tree_of(y)
    err, r = ctx.call(lambda: (bool(x == y), bool(y == x), bool(x != y)))
    eq, qe, ne = r or (False, False, False)
    ctx.emit(dict(op="pair", a=a, b=b, da=dx, db=dy, err=err, eq=eq, qe=qe, ne=ne, kind=type(x).__name__),
             key=(repr(a), repr(b)))


def one(ctx, x, d):
    a = tree_of(x)
    f = root_of(x) if isinstance(x, Tensor) else x
    ids = dict(eq=False, copy=False, empty=False, count=-1, n=node("N"), neq=False, pruned=False)

    def go():
        ids["eq"] = bool(x == x)
        c = copymod.deepcopy(x)
        ids["copy"] = bool(x == c) and bool(c == x)
        ids["count"] = x.countValues()
        if isinstance(f, Fiber):
            ids["empty"] = bool(f.isEmpty())
            n = f.nonEmpty()
            ids["n"], ids["pruned"] = enc(n), True
            ids["neq"] = bool(n == f) and bool(f == n)
        else:
            ids["empty"] = Payload.isEmpty(f, default=num(d))
    err, _ = ctx.call(go)
    ctx.emit(dict(op="one", a=a, da=d, err=err, kind=type(x).__name__, **ids), key=(repr(a), type(x).__name__))


def gen(ctx):
    rng = ctx.rng
    # all pairs of small trees
    def trees(D, vals, nc):
        if D == 0:
            return [node("B", v=[v, 1]) for v in vals]
        subs = trees(D - 1, vals, nc)
        out = [([], [])]
        for c in range(nc):
            out = out + [(cs + [[c]], ps + [s]) for cs, ps in out for s in subs]
        return [node("F", cs, ps, g="i" if cs else "") for cs, ps in out]
    small = trees(2, (0, 1), 2)
    small1 = trees(1, (0, 1, 2), 3)
    for coll, D in ((small1, 1), (small, 2)):
        if not (ctx.thorough or D == 1):
            coll = [t for i, t in enumerate(coll) if i % 3 == ctx.seed % 3]
        for i, t in enumerate(coll):
            for u in coll[i:]:
                if ctx.mine():
                    d = [0, 1] if rng.random() < 0.8 else [1, 1]
                    pair(ctx, dress(rng, t, D, d, 2), dress(rng, u, D, d, 2), d, d)
        for t in coll:
            if ctx.mine():
                for d in ([0, 1], [1, 1]):
                    one(ctx, dress(rng, t, D, d, 2), d)
    for _ in range(ctx.share(8000, 30000)):
        D = rng.choice((1, 2, 2, 3, 3, 4))
        nc = size(rng, D, (2, 3, 5) if D < 4 else (2, 3))
        d = rng.choice(([0, 1], [0, 1], [7, 1]))
        if exotic(rng, 0.2):                     # leaves of other types
            d = [rng.choice((0, 1)), 1]
        t = rtree(rng, D, nc, d)
        k = rng.random()
        d2 = d
        if k < 0.45:
            u = noise(rng, t, d, D, nc)
        elif k < 0.8:
            u = near(rng, noise(rng, t, d, D, nc), d)
        elif k < 0.9:
            u = rtree(rng, D, nc, d)
        else:
            d2 = ([7, 1] if d == [0, 1] else [0, 1]) if not VALUES else [1 - d[0], 1]
            u = noise(rng, t, d, D, nc)
        x, y = dress(rng, t, D, d, nc), dress(rng, u, D, d2, nc)
        pair(ctx, x, y, d, d2)
        one(ctx, x, d)
        if rng.random() < 0.4 and not VALUES:
            change(rng, x, d)
            one(ctx, x, d)
            pair(ctx, x, y, d, d2)
    exotic(rng, 0)
    # results of transforms (flattened coordinates, split ranks), against copies rebuilt from their content
    for _ in range(ctx.share(2400, 8000)):
        err, r = ctx.call(rand_tensor, rng, None, None, None, ctx.scratch)
        if r is None:
            continue
        t, kind = r
        T = t.T
        for _ in range(rng.randint(0, 2)):
            op = rand_op(rng, t, only=["flatten", "swizzle", "split", "unflatten", "merge", "swap", "deepcopy"])
            if op is None:
                continue
            err, R = ctx.call(apply, T, op)
            if err or not isinstance(R, Tensor):
                break
            t, T = after(t, op, R), R
        n = tree_of(T)
        if len(repr(n)) > 4000 or not isinstance(root_of(T), Fiber):
            continue
        d = list(val(t.d))
        one(ctx, T, d)
        if all(s == "int" or s[0] == "tuple" for s in t.styles):
            u = noise(rng, n, d, t.D, 4)
            if rng.random() < 0.4:
                u = near(rng, u, d)
            U = Tensor.fromFiber(T.getRankIds(), mk(u, d), default=t.d)
            pair(ctx, T, U, d, d)
            pair(ctx, root_of(T), mk(u, d), d, d)
    for v in (0, 1, 3):
        for w in (0, 1):
            T, U = Tensor(rank_ids=[]), Tensor(rank_ids=[])
            a, b = T.getRoot(), U.getRoot()
            a <<= v
            b <<= w
            if ctx.shard == 0:
                pair(ctx, T, U, [0, 1], [0, 1])


if __name__ == "__main__":
    cfg = """SPECIFICATION Spec
CONSTANTS NC = %d
 Depth = %d
 Vals = {0, 1}
INVARIANTS WalkIsContent Symmetric Reflexive Canonises Counts
CHECK_DEADLOCK FALSE
"""
    vt.main("C12", gen, "Trace_C12",
            mc=[dict(name="content-2x1", module="MC_Content", cfg=cfg % (2, 1)),
                dict(name="content-1x3", module="MC_Content", cfg=cfg % (1, 3)),
                dict(name="content-2x2", module="MC_Content", cfg=cfg % (2, 2), thorough_only=True, timeout=800,
                     args=("-workers", "4"))],
            rule="pairs of fibers and tensors (all small trees, and random trees against noisy or nearly equal variants) and "
                 "single objects; distinct by trees")
