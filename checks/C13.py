"""C13: conversions between representations are lossless."""
import itertools
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vt
from machine import *
from xform import chains, rid, shp, rand_tensor


LEAF = (int, float, str, tuple)
ODD = ["a", "", "0", "null", "1e3", "x y", "~", "[1]", (0, 1), (0,), ("a", 2), 2 ** 80, -2 ** 70, 1e-300, 5e-324, 0.30000000000000004,
       True, "True", "é", "a\nb", " ", "'", "#"]


class Table:
    """Values without a small exact rational get a number of their own (only equality matters here)."""

    def __init__(self):
        self.m = {}

    def __call__(self, x):
        x = Payload.get(x)
        v = val(x)
        if v is not None:
            return v
        return [self.m.setdefault(x, len(self.m) + 1), 7919]


def ench(x, tab):
    if isinstance(x, Fiber):
        n = enc(x)
        return dict(n, p=[ench(p, tab) for p in x.payloads])
    if isinstance(x, (Payload, *LEAF)) and isinstance(Payload.get(x), LEAF):
        return node("B" if isinstance(x, Payload) else "S", v=tab(x))
    return enc(x)


def encnest(n, tab):
    if isinstance(n, list):
        return dict(k="L", v=[0, 1], p=[encnest(x, tab) for x in n])
    if isinstance(n, LEAF):
        return dict(k="V", v=tab(n), p=[])
    return dict(k="X", v=[0, 1], p=[])


def kinds(x):
    """Structure of the coordinates, level by level."""
    out, level = [], [x] if isinstance(x, Fiber) else []
    while level:
        out.append(sorted({sig(c) for f in level for c in f.coords}))
        level = [p for f in level for p in f.payloads if isinstance(p, Fiber)]
    return out


def lshape(f, D):
    s = f.getShape(all_ranks=True)
    return [flat(x) for x in (s if isinstance(s, list) else [s])]


def call(ctx, fn, *a):
    def go():
        try:
            return fn(*a)
        except SystemExit:
            raise RuntimeError("exit")
    return ctx.call(go)


def dims(n):
    return [len(n)] + dims(n[0]) if isinstance(n, list) else []


NONE = dict(k="N", v=[0, 1], p=[])


def build(ctx, nest, d, kind, ids=None, name="", shape=None, fmt=None):
    tab = Table()
    D = len(dims(nest))
    rng = ctx.rng
    ev = dict(op="build", kind=kind, nest=encnest(nest, tab), d=tab(d), tree=node("N"), shape=[], ids=[], wids=[], name=name,
              wname=name, uerr="", back=NONE, pad=NONE, perr="", pshape=[])

    def go():
        if kind == "fiber":
            return Fiber.fromUncompressed(nest, **(dict(default=d) if d != 0 or rng.random() < 0.3 else {}))
        k = dict(name=name) if name else {}
        if d != 0 or rng.random() < 0.3:
            k["default"] = d
        if D == 0:
            return Tensor.fromUncompressed(root=nest, **dict(k, **(dict(rank_ids=[]) if rng.random() < 0.5 else {})))
        if shape:
            k["shape"] = shape
        return Tensor.fromUncompressed(ids, nest, **k)
    err, X = call(ctx, go)
    ev["err"] = err
    if err == "":
        root = X if kind == "fiber" else X.getRoot()
        ev["tree"] = ench(root, tab)
        if kind == "fiber":
            s = X.getShape(all_ranks=True)
            ev["shape"] = s if isinstance(s, list) else [s]
        else:
            ev["shape"] = list(X.getShape())
            ev["ids"], ev["wids"] = [rid(x) for x in X.getRankIds()], [rid(x) for x in (ids or [])]
            ev["name"] = str(X.getName())
            for i, f in enumerate(fmt or []):
                X.setFormat(ids[i], f)
        if D:
            sh = dims(nest)
            ev["uerr"], b = call(ctx, lambda: root.uncompress(shape=list(sh)) if rng.random() < 0.6 else root.uncompress())
            ev["back"] = encnest(b, tab)
            ev["pshape"] = [x + rng.randint(0, 2) for x in sh]
            ev["perr"], b = call(ctx, lambda: root.uncompress(list(ev["pshape"])))
            ev["pad"] = encnest(b, tab)
    ctx.notes["build " + kind] += 1
    ctx.emit(ev, key=(kind, repr(nest), d, repr(fmt)))
    return X


def roundtrip(ctx, X, d, kind, D, how):
    """how: yaml, dict"""
    tab = Table()
    fn = os.path.join(ctx.scratch, "x.yaml")
    tensor = isinstance(X, Tensor)

    def go():
        if how == "dict":
            return Fiber.dict2fiber(X.fiber2dict())
        X.dump(fn)
        if tensor:
            return Tensor.fromYAMLfile(fn) if ctx.rng.random() < 0.7 or D == 0 else Tensor(yamlfile=fn)
        return Fiber.fromYAMLfile(fn, **dict(dict(default=d) if d != 0 else {}, **kw))
    kw = {}
    if not tensor and how == "yaml" and X.getRankAttrs().getShape() is not None:
        kw["shape"] = X.getRankAttrs().getShape()
    r0 = X.getRoot() if tensor else X
    ev = dict(op="round", how=how, kind=kind, t0=ench(r0, tab), d0=tab(d), depth=D, t1=node("N"), d1=[0, 1], g0=[], g1=[],
              ids0=[], ids1=[], sh0=[], sh1=[], name0="", name1="", eq=True, nokinds=False)
    err, Y = call(ctx, go)
    ev["err"] = err
    if err == "":
        r1 = Y.getRoot() if isinstance(Y, Tensor) else Y
        ev["t1"] = ench(r1, tab)
        ev["g0"], ev["g1"] = kinds(r0), kinds(r1)
        ev["eq"] = bool(X == Y) and bool(Y == X)
        if tensor:
            ev["ids0"], ev["ids1"] = [rid(x) for x in X.getRankIds()], [rid(x) for x in Y.getRankIds()]
            ev["sh0"], ev["sh1"] = [flat(x) for x in X.getShape()], [flat(x) for x in Y.getShape()]
            ev["name0"], ev["name1"] = str(X.getName()), str(Y.getName())
            ev["d1"] = tab(Y.getDefault()) if D else ev["d0"]
        else:
            level = [r1]
            for _ in range(D - 1):
                level = [p for f in level for p in f.payloads if isinstance(p, Fiber)]
            leaf = next((f for f in level if f.payloads), None)
            dd = leaf.getDefault() if leaf is not None else None
            ev["d1"] = tab(dd) if isinstance(Payload.get(dd), LEAF) else ev["d0"]
            if kw:
                ev["sh0"], ev["sh1"] = [flat(kw["shape"])], [flat(Y.getShape(all_ranks=False))]
            elif kind in ("nest", "free") and not X.getRankAttrs().getShape() and X.coords:
                ev["sh0"], ev["sh1"] = lshape(X, D), lshape(Y, D)
    ctx.notes["%s %s" % (how, "tensor" if tensor else "fiber")] += 1
    ctx.emit(ev, key=(how, tensor, repr(ev["t0"]), repr(ev["ids0"]), d))


def rnd(ctx, shape, density, interval, seed, d, tensor):
    def go():
        if tensor:
            ids = ["R%d" % i for i in range(len(shape))]
            T = Tensor.fromRandom(ids, list(shape), density, interval=interval, seed=seed, default=d)
            return T, T.getRoot()
        f = Fiber.fromRandom(list(shape), density, interval, seed, default=d)
        return None, f
    random.seed(ctx.rng.random())
    err, r = call(ctx, go)
    t1 = enc(r[1]) if r else node("N")
    dsh = list(r[0].getShape()) if r and tensor else []
    random.seed(ctx.rng.random())
    err2, r2 = call(ctx, go)
    dens = density if isinstance(density, list) else [density]
    full = all(x == 1 for x in dens) and (d == 0 or interval > 1 or d != 1)
    ctx.notes["random"] += 1
    ctx.emit(dict(op="random", shape=list(shape), dens=repr(density), seed=repr(seed), err=err or err2, t1=t1,
                  t2=enc(r2[1]) if r2 else node("N"), dsh=dsh, full=full, d=list(val(d))),
             key=(tuple(shape), repr(density), interval, seed, d, tensor))


VALS = [1, 2, -3, 7, 0.5, -1.25, 0.1, 1e300, 10 ** 15, 1e-7, 2.0, 1e16, -0.1, 123456789012345678]


def rnest(rng, sh, d, p, vals):
    if not sh:
        return d if rng.random() < p else rng.choice(vals)
    if rng.random() < 0.1:
        p = rng.choice((0, 1, p))
    return [rnest(rng, sh[1:], d, p, vals) for _ in range(sh[0])]


def gen(ctx):
    rng = ctx.rng
    # every small nest
    for sh in [(1,), (2,), (3,), (4,), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (1, 1, 1), (2, 1, 2), (2, 2, 2), (1, 2, 1, 2), (2, 1, 2, 1)]:
        n = 1
        for x in sh:
            n *= x
        for vs in itertools.product((0, 2), repeat=n):
            if not ctx.mine():
                continue
            it = iter(vs)

            def go(s):
                return next(it) if not s else [go(s[1:]) for _ in range(s[0])]
            nest = go(sh)
            d = 0 if rng.random() < 0.6 else 2
            build(ctx, nest, d, "fiber")
            X = build(ctx, nest, d, "tensor", list("ABCD"[:len(sh)]), rng.choice(("", "T")), list(sh) if rng.random() < 0.5 else None,
                      [rng.choice("CU") for _ in sh] if rng.random() < 0.3 else None)
            if X is not None and rng.random() < 0.4:
                roundtrip(ctx, X, d, "nest", len(sh), "yaml")
    for _ in range(ctx.share(3500, 40000)):
        D = rng.choice((1, 1, 2, 2, 2, 3, 3, 4))
        sh = [rng.randint(1, 5 if D < 3 else 3) for _ in range(D)]
        d = rng.choice((0, 0, 0, 5, -1, 0.5, 0.1))
        odd = rng.random() < 0.2
        if odd and rng.random() < 0.3:
            d = rng.choice(ODD)
        nest = rnest(rng, sh, d, rng.choice((0.3, 0.6, 0.9, 1)), ODD + [0] if odd else rng.choice((VALS, [0, 1, 2], [0.0, 0.25, -2])))
        ids = rng.sample(["M", "K", "N", "P.0", "x y", "R1"], D)
        if rng.random() < 0.4:
            X = build(ctx, nest, d, "fiber")
        else:
            X = build(ctx, nest, d, "tensor", ids, rng.choice(("", "A", "t 1", "null", "5")), sh if rng.random() < 0.5 else None,
                      [rng.choice("CU") for _ in sh] if rng.random() < 0.3 else None)
        if X is not None and not (odd and isinstance(d, (str, tuple))):     # (only a numeric default is written)
            roundtrip(ctx, X, d, "nest", D, "yaml")
            if isinstance(X, Fiber):
                roundtrip(ctx, X, d, "nest", D, "dict")
    # rank 0
    for v in VALS + [0, 5, -7]:
        for d in (0, 5):
            for name in ("", "S"):
                if ctx.mine():
                    X = build(ctx, v, d, "tensor", None, name)
                    if X is not None:
                        roundtrip(ctx, X, d, "rank-0", 0, "yaml")
    # free fibers with explicit defaults and empty sub-fibers
    for _ in range(ctx.share(2000, 20000)):
        D = rng.choice((1, 2, 2, 3))
        nc = size(rng, D, (2, 3, 5))
        d = rng.choice((0, 0, 0, 5))
        t = rtree(rng, D, nc, [d, 1], rng.choice((0.3, 0.6, 0.9)))
        f = mk(t, [d, 1])
        if rng.random() < 0.5:
            f.getRankAttrs().setShape(nc + rng.randint(0, 3))
        if D > 1 and not any(p.payloads for p in f.payloads):
            continue
        roundtrip(ctx, f, d, "free", D, rng.choice(("yaml", "dict")))
    # tensors obtainable by transforms
    def emit(t, op, ids, pre, post, R, res, err, kind):
        if isinstance(R, Tensor):
            t = R
            roundtrip(ctx, R, Payload.get(R.getDefault()), op["o"], len(R.getRankIds()), "yaml")
            if rng.random() < 0.2 and isinstance(R.getRoot(), Fiber):
                f = copymod.deepcopy(R.getRoot())
                roundtrip(ctx, f, Payload.get(R.getDefault()), op["o"], len(R.getRankIds()), "dict")
    chains(ctx, ctx.share(2500, 25000), 3, emit)
    # tensors never filled, or filled by reference
    for _ in range(ctx.share(600, 6000)):
        err, r = ctx.call(rand_tensor, rng, None, None, None, ctx.scratch, ("empty", "ref", "noshape", "sub"))
        if r:
            roundtrip(ctx, r[0].T, r[0].d, r[1], r[0].D, "yaml")
    for _ in range(ctx.share(2500, 25000)):
        D = rng.choice((1, 1, 2, 2, 3, 4))
        sh = [rng.randint(1, 6 if D < 3 else 3) for _ in range(D)]
        k = rng.random()
        dens = 1.0 if k < 0.15 else [1.0] * D if k < 0.3 else rng.random() if k < 0.5 else [rng.choice((0.2, 0.5, 1.0)) for _ in range(D)]
        d = rng.choice((0, 0, 0, 0, 3, 1))
        if isinstance(dens, list) and d != 0:
            dens = [1.0] * (D - 1) + dens[-1:]
        rnd(ctx, sh, dens, rng.choice((1, 2, 5, 10)), rng.choice((0, 1, 10, 12345, "abc", 2.5, -4)), d, rng.random() < 0.5)


if __name__ == "__main__":
    vt.main("C13", gen, "Trace_C13", mc=[dict(name="convert-%s-%d" % (m, n), module="MC_Convert", args=("-deadlock", "-workers", "2"),
                     cfg="SPECIFICATION Spec\nCONSTANTS NR = %d\n Mode = \"%s\"\nINVARIANTS Built Loaded Randomized\nPROPERTY Terminates\n" % (n, m),
                     thorough_only=n == 3 and m == "random", timeout=300)
                for n in (1, 2, 3) for m in ("nest", "random")],
            rule="builds distinct by nest, default and kind; round trips by tree, ids and default; random constructions by arguments")
