"""C04: co-iteration truth tables."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vt
from ft import *
from fibertree.core.rank_attrs import RankAttrs
from machine import root_of
from xform import rand_tensor, rand_op, apply, after


def leaf(o):
    return {"x": "leaf", "a": [], "o": o}


def ex(x, *a):
    return {"x": x, "a": list(a), "o": 0}


def book(fibers, ids):
    """Rank lists of the tensors the operands belong to."""
    out = []
    for f in fibers:
        o = f.getOwner()
        if o is None:
            out.append([])
            continue
        r = o
        lists = []
        while r is not None:
            lists.append([ids(x) for x in r.getFibers()])
            r = r.getNextRank()
        out.append(lists)
    return out


def evalreal(e, fs):
    if e["x"] == "leaf":
        return fs[e["o"] - 1]
    if e["x"] == "inter":
        return Fiber.intersection(*fs)
    if e["x"] == "lf":
        return Fiber.intersection(*fs, style="leader-follower")
    if e["x"] == "union":
        return Fiber.union(*fs)
    a, b = (evalreal(s, fs) for s in e["a"])
    return {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "sub": lambda: a - b}[e["x"]]()


def run(ctx, expr, fs, infos, tag, lazies=None):
    ids = Ids()
    kept = []
    trees = [enc(f, ids) for f in fs]
    b1 = book(fs, ids)
    ops = [dict(t=t, d=val(i["d"]), up=i["up"], fmt=i["fmt"], act=list(i["act"])) for t, i in zip(trees, infos)]

    def go():
        lazy = lazies[0] if lazies else evalreal(expr, fs)
        kept.append(lazy)
        return list(lazy), [flat(c) for c, _ in lazy]
    err, r = ctx.call(go)
    out, again = r if r else ([], [])
    try:
        o = encpairs(out, ids)
    except Exception as x:
        err, o = "unpack:" + type(x).__name__, []
    ctx.emit(dict(op=expr["x"], tag=tag, e=expr, ops=ops, out=o, again=again, err=err,
                  post=[enc(f, ids) for f in fs], book=b1, book2=book(fs, ids)),
             key=(expr["x"], repr(expr), repr([(t, i) for t, i in zip(trees, infos)])) if any(t["c"] for t in trees) else None)
    if lazies is None and not err and tag != "leaf3" and ctx.rng.random() < 0.15:
        # updates reach the operands: iterating once more presents what they hold now
        def write(q, d):
            if isinstance(q, CoordPayload):
                q = q.payload
            if isinstance(q, (tuple, list)):
                for x in q:
                    write(x, d)
            elif isinstance(q, Payload) and isinstance(q.value, tuple):
                write(q.value, d)
            elif isinstance(q, Payload) and val(q.value) is not None and type(q.value) in (int, float):
                if ctx.rng.random() < 0.6:
                    q <<= ctx.rng.choice((d, d, 3, 8))
            elif isinstance(q, Fiber) and not q.isLazy():
                for x in q.payloads:
                    write(x, d)
        for cp in out:
            write(cp, ctx.rng.choice(infos)["d"])
        if ctx.rng.random() < 0.3:
            write(fs, infos[0]["d"])
        run(ctx, expr, fs, infos, tag + "-written", kept[:1])


BIN = ["and", "or", "xor", "sub"]


def info(d=0, up="no", fmt="C", act=(0, 0)):
    return dict(d=d, up=up, fmt=fmt, act=act)


def leaf_fibers(n, d=0):
    """Every fiber over n coordinates, each absent / explicit default / a value."""
    for st in itertools.product((0, 1, 2), repeat=n):
        yield [(c, d if s == 1 else 10 * (c + 1) + 1) for c, s in enumerate(st) if s]


def up_fibers(n):
    for st in itertools.product((0, 1, 2, 3), repeat=n):
        yield [(c, [[], [(0, 0)], [(0, c + 1), (1, 0)]][s - 1]) for c, s in enumerate(st) if s]


def gen(ctx):
    rng = ctx.rng
    # exhaustive: leaf payloads over 3 coordinates
    L3 = list(leaf_fibers(3))
    for x in BIN:
        for a in L3:
            for b in L3:
                if ctx.mine():
                    run(ctx, ex(x, leaf(1), leaf(2)), [build(a), build(b)], [info(), info()], "leaf3")
    # exhaustive: fiber payloads over 2 coordinates
    U2 = list(up_fibers(2))
    for x in BIN:
        for a in U2:
            for b in U2:
                if ctx.mine():
                    run(ctx, ex(x, leaf(1), leaf(2)), [build(a), build(b)],
                        [info(up="yes" if a else "any"), info(up="yes" if b else "any")], "up2")

    def rleaf(n, d=0, dens=None):
        if n > 8 and dens is None and rng.random() < 0.6:
            # long runs of absent, explicit default and other elements
            out = []
            while len(out) < n:
                k = rng.choice("ADVM")
                out += [k] * rng.randint(1, n)
            kinds = [rng.choice("ADV") if k == "M" else k for k in out[:n]]
            return [(c, d if k == "D" else d + c + 1) for c, k in enumerate(kinds) if k != "A"]
        dens = rng.choice((0.0, 0.3, 0.6, 0.9, 1.0)) if dens is None else dens
        return [(c, d if rng.random() < 0.25 else rng.randint(1, 9) + d) for c in range(n) if rng.random() < dens]

    def rup(n, dens=None):
        dens = rng.choice((0.0, 0.3, 0.6, 0.9, 1.0)) if dens is None else dens
        return [(c, rng.choice([[], [(0, 0)], [(1, 4)], rleaf(3)])) for c in range(n) if rng.random() < dens]

    def fresh(n):
        """A random operand: (fiber, info)."""
        kind = rng.choice(["leaf", "leafd", "up", "owned-leaf", "owned-up", "owned-mid", "unc", "unc-attr", "unc-up"])
        d = 0 if rng.random() < 0.6 else rng.choice((5, -1))
        if kind in ("leaf", "leafd"):
            return build(rleaf(n, d), default=d), info(d)
        if kind == "up":
            t = rup(n)
            return build(t), info(0, "yes" if t else "any")
        if kind == "unc-attr":
            t = rleaf(n, d)
            lo = rng.randint(0, n)
            hi = rng.randint(lo, n)
            act = (lo, hi)
            f = Fiber([c for c, _ in t], [p for _, p in t], shape=n, default=d,
                      rank_attrs=RankAttrs("K"), active_range=act)
            f.getRankAttrs().setFormat("U")
            return f, info(d, "no", "U", act)
        if kind in ("owned-leaf", "unc"):
            T = Tensor.fromFiber(["K"], build(rleaf(n, d), d, [n]), shape=[n], default=d)
            f = T.getRoot()
            KEEP.append(T)
            if kind == "unc":
                T.setFormat("K", "U")
                act = (0, n)
                if rng.random() < 0.5:
                    lo = rng.randint(0, n)
                    act = (lo, rng.randint(lo, n))
                    f.setActive(act)
                return f, info(d, "no", "U", act)
            return f, info(d)
        if kind in ("owned-up", "unc-up"):
            T = Tensor.fromFiber(["M", "K"], build(rup(n), 0, [n, 3]), shape=[n, 3])
            KEEP.append(T)
            f = T.getRoot()
            if kind == "unc-up":
                T.setFormat("M", "U")
                return f, info(0, "yes", "U", (0, n))
            return f, info(0, "yes")
        # a sub-fiber of a tensor
        t = [(c, rleaf(n)) for c in range(2)]
        T = Tensor.fromFiber(["M", "K"], build(t, 0, [2, n]), shape=[2, n])
        KEEP.append(T)
        return T.getRoot().payloads[rng.randrange(2)], info(0)

    for _ in range(ctx.share(6000)):
        KEEP.clear()
        n = rng.randint(1, 6) if rng.random() < 0.8 else rng.choice((9, 12, 17, 33))
        r = rng.random()
        if r < 0.45:
            fs, infos = zip(*[fresh(n) for _ in range(2)])
            e = ex(rng.choice(BIN), leaf(1), leaf(2))
        elif r < 0.75:
            k = rng.choice((2, 3, 3, 4, 4))
            fs, infos = zip(*[fresh(n) for _ in range(k)])
            e = ex(rng.choice(["inter", "union", "lf"]))
            if e["x"] == "union" and k > 2 and any(i["up"] == "any" for i in infos):
                continue
            if e["x"] == "union" and k > 2:
                # keep the kinds of default distinguishable
                pass
        else:
            fs, infos = zip(*[fresh(n) for _ in range(3)])
            o = rng.choice(["and", "sub", "or", "xor"])
            i = rng.choice(BIN)
            if o != "sub" and rng.random() < 0.5:
                e = ex(o, leaf(3), ex(i, leaf(1), leaf(2)))
            else:
                e = ex(o, ex(i, leaf(1), leaf(2)), leaf(3))
            if o == "sub" and i in ("and",) and rng.random() < 0.3:
                e = ex("sub", leaf(3), ex(i, leaf(1), leaf(2)))
        run(ctx, e, list(fs), list(infos), "random")

    # a sparse operand against a dense one full of explicit defaults
    for _ in range(ctx.share(1600)):
        KEEP.clear()
        n = rng.choice((9, 12, 17, 33, 9, 12, 17, 33, 70, 135))
        d = rng.choice((0, 0, 5))
        r = rng.choice((0.1, 0.5, 0.9))
        dense = [(c, d if rng.random() < r else d + 1 + c) for c in range(n) if rng.random() < 0.9]
        sparse = [(c, d if rng.random() < 0.1 else d + 1 + c) for c in range(n) if rng.random() < rng.choice((0.1, 0.3))]
        k = rng.choice((2, 2, 2, 3))
        fs, infos = [], []
        for t in rng.sample([dense, sparse, rleaf(n, d)][:k], k):
            f = build(t, default=d)
            if rng.random() < 0.4:
                T = Tensor.fromFiber(["K"], f, shape=[n], default=d)
                KEEP.append(T)
                f = T.getRoot()
            fs.append(f)
            infos.append(info(d))
        e = ex(rng.choice(BIN), leaf(1), leaf(2)) if k == 2 else ex(rng.choice(["inter", "union", "lf"]))
        run(ctx, e, fs, infos, "skew")

    # tuple coordinates: equal arity for every operator, common prefix for intersection
    def tup(k, n):
        cs = sorted(c for c in itertools.product(range(n), repeat=k) if rng.random() < 0.5)
        if rng.random() < 0.1:
            cs = []
        if k == 1:
            cs = [c[0] for c in cs]
        return [(c, 0 if rng.random() < 0.2 else rng.randint(1, 9)) for c in cs]
    for _ in range(ctx.share(2400)):
        KEEP.clear()
        if rng.random() < 0.35:
            k = rng.choice((2, 3))
            fs = [build(tup(k, 3 if k == 2 else 2)) for _ in range(2)]
            e = ex(rng.choice(BIN), leaf(1), leaf(2))
        else:
            ka, kb = rng.choice([(1, 2), (2, 1), (1, 3), (3, 1), (2, 3), (3, 2), (2, 4), (4, 2), (4, 1), (1, 4)])
            n = 3 if max(ka, kb) == 2 else 2
            fs = [build(tup(ka, n)), build(tup(kb, n))]
            if rng.random() < 0.25:
                fs.append(build(tup(rng.choice((1, 2, 3)), n)))
            if rng.random() < 0.4:
                j = rng.randrange(2)
                k = (ka, kb)[j]
                T = Tensor.fromFiber(["K"], fs[j], shape=[n if k == 1 else (n,) * k])
                KEEP.append(T)
                fs[j] = T.getRoot()
            e = ex("and", leaf(1), leaf(2)) if len(fs) == 2 else rng.choice([
                ex("and", ex("and", leaf(1), leaf(2)), leaf(3)), ex("and", leaf(1), ex("and", leaf(2), leaf(3))), ex("inter")])
        run(ctx, e, fs, [info()] * len(fs), "tuple")

    # fibers of transformed tensors (split, flattened, swizzled, ...), and copies of them
    for _ in range(ctx.share(1600)):
        KEEP.clear()
        d = rng.choice((0, 0, 5))
        D = rng.choice((1, 2, 2, 3))
        pool = []
        for _ in range(rng.choice((2, 3))):
            err, r = ctx.call(rand_tensor, rng, D, 3, d, ctx.scratch, ["fiber", "fiber", "noshape", "unc", "ref", "sub"])
            if r is None:
                continue
            t = r[0]
            ops = pool[0][2] if pool and rng.random() < 0.7 else [None] * rng.choice((0, 1, 1, 2))
            done = []
            for op in ops:
                op = op or rand_op(rng, t, only=["split", "split", "div", "swizzle", "swap", "flatten", "flatten", "unflatten", "merge",
                                                 "updcoords", "updpay", "deepcopy"])
                if op is None:
                    continue
                err, R = ctx.call(apply, t.T, op)
                if err or not isinstance(R, Tensor):
                    break
                t = after(t, op, R)
                done.append(op)
            if isinstance(root_of(t.T), Fiber):
                pool.append((t.T, t.styles, done))
        fs, infos, st = [], [], None
        for T, styles, _ in pool:
            KEEP.append(T)
            f, i = root_of(T), 0
            if st is None:
                while i + 1 < len(styles) and f.payloads and rng.random() < 0.5:
                    f, i = rng.choice(f.payloads), i + 1
                st = styles[i]
            else:
                at = [j for j, x in enumerate(styles) if x == st]
                if not at:
                    continue
                at = rng.choice(at)
                while i < at and f.payloads:
                    f, i = rng.choice(f.payloads), i + 1
                if i < at:
                    continue
            fmt = f.getRankAttrs().getFormat()
            lo, hi = [flat(x) for x in f.getActive()]
            if fmt == "U" and (st != "int" or len(lo) != 1 or len(hi) != 1 or hi[0] > 40):
                continue
            fs.append(f)
            infos.append(info(d, "yes" if i + 1 < len(styles) else "no", fmt, (lo[0], hi[0]) if fmt == "U" else (0, 0)))
        if len(fs) < 2:
            continue
        n = len(fs)
        if st == "int" and rng.random() < 0.4:
            e = ex(rng.choice(["inter", "union", "lf"]))
        else:
            i, j = rng.sample(range(1, n + 1), 2)
            e = ex(rng.choice(BIN), leaf(i), leaf(j))
        run(ctx, e, fs, infos, "transformed")

    # co-iteration nested through two levels: defaults delivered above are usable below
    for _ in range(ctx.share(800)):
        KEEP.clear()
        k = rng.choice((2, 3, 3, 4))
        d = rng.choice((0, 0, 5))
        fs = []
        for _ in range(k):
            t = rand_tree(rng, 2, [3, 3], rng.choice((0.2, 0.5, 0.8)), vals=(d, 1, 2, 3))
            if rng.random() < 0.6 or not t:
                T = Tensor.fromFiber(["M", "K"], build(t, d, [3, 3]), shape=[3, 3], default=d)
                KEEP.append(T)
                fs.append(T.getRoot())
            else:
                fs.append(build(t, d))
        two = k == 2 and rng.random() < 0.5

        def go():
            out = []
            for m, ps in (fs[0] | fs[1] if two else Fiber.union(*fs)):
                for c, qs in (list(ps)[1] | list(ps)[2] if two else Fiber.union(*list(ps)[1:])):
                    out.append(dict(c=[flat(m), flat(c)], v=[val(Payload.get(q)) or [-1, 0] for q in list(qs)[1:]]))
            return out
        ids = Ids()
        trees = [enc(f, ids) for f in fs]
        b1 = book(fs, ids)
        err, out = ctx.call(go)
        err2, out2 = ctx.call(go)
        ctx.emit(dict(op="deep", ops=[dict(t=t, d=val(d)) for t in trees], out=out or [], again=out2 or [],
                      err=err or err2, post=[enc(f, ids) for f in fs], book=b1, book2=book(fs, ids)),
                 key=repr(trees))


KEEP = []

if __name__ == "__main__":
    cfg = "SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANTS Ascends PrefixOfTruth MaskRight TruthAtEnd\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n"
    vt.main("C04", gen, "Trace_C04",
            mc=[dict(name="two-finger-merge", module="MC_CoIter",
                     cfg=cfg % (5 if os.environ.get("VERIF_TIER") == "thorough" else 4))],
            rule="co-iterations of real fibers; non-trivial when some operand stores an element; distinct by operator and operand trees")
