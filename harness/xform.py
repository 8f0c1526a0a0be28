"""Random tensors, random value-returning transforms, and their projection.

Used by the properties about bookkeeping (C02), splits (C08), rank transforms (C09),
aliasing (C10) and attributes (C14): one recorded event per transform application.
"""
import copy as copymod
import os
from ft import *
from machine import mk, book, root_of, num, rtree, size


# ---- projection -----------------------------------------------------------

def rid(x):
    """Rank id -> list of strings ("[" marks a list)."""
    if isinstance(x, (list, tuple)):
        r = ["["]
        for y in x:
            z = rid(y)
            r += z[1:] if False else z
        return r
    return [str(x)]


def shp(s):
    if s is None:
        return []
    return flat(s)


def act(f):
    try:
        a, b = f.getActive()
        return [flat(a), flat(b)]
    except Exception:
        return [[-LIM], [-LIM]]


def fshape(f, auth=False):
    try:
        return shp(f.getShape(all_ranks=False, authoritative=auth))
    except Exception:
        return [-LIM]


def fibers(f, ids, depth=0, out=None):
    """Per-fiber attributes in depth-first order."""
    out = [] if out is None else out
    a = act(f)
    try:
        at = f.getRankAttrs()
        rname, fmt = rid(at.getId()), at.getFormat()
    except Exception:
        rname, fmt = ["?"], "?"
    try:
        dv = enc(f.getDefault())
    except Exception:
        dv = node("X")
    out.append(dict(i=ids(f), d=depth, lo=a[0], hi=a[1], sh=fshape(f), au=fshape(f, True), rid=rname, fmt=fmt, dv=dv,
                    own=f.getOwner() is not None))
    for p in f.payloads:
        q = Payload.get(p)
        if isinstance(q, Fiber):
            fibers(q, ids, depth + 1, out)
    return out


def objs(x, ids):
    """Identities of every mutable object reachable from a fiber or tensor."""
    out = set()

    def attrs(a):
        if a is not None:
            out.add(ids(a))
            d = getattr(a, "_default", None)
            if isinstance(d, (Fiber, Payload)):
                out.add(ids(d))

    def pay(p):
        if isinstance(p, Payload):
            out.add(ids(p))
            pay(p.value)
        elif isinstance(p, Fiber):
            fib(p)
        elif isinstance(p, (tuple, list)):
            for q in p:
                pay(q)

    def fib(f):
        if ids(f) in out:
            return
        out.add(ids(f))
        out.add(ids(f.coords))
        out.add(ids(f.payloads))
        attrs(f.getRankAttrs())
        if f.getOwner() is not None:
            rank(f.getOwner())
        for p in f.payloads:
            pay(p)

    def rank(r):
        while r is not None:
            if ids(r) in out:
                return
            out.add(ids(r))
            out.add(ids(r.getFibers()))
            attrs(r.getAttrs())
            for f in r.getFibers():
                fib(f)
            r = r.getNextRank()

    if isinstance(x, Tensor):
        out.add(ids(x))
        if hasattr(x, "ranks"):
            out.add(ids(x.ranks))
            for r in x.ranks:
                rank(r)
        pay(root_of(x))
    elif isinstance(x, (Fiber, Payload)):
        pay(x)
    return sorted(out)


NOBOOK = dict(D=0, root=0, lists=[], own=[], next=[], ids=0)


def tinfo(x, ids, withobjs=False):
    """Everything observable about a tensor or fiber."""
    e = dict(k="N", tree=node("N", i=0), rid=[], shape=[], auth=[], dflt=[0, 0], fmt=[], mut=False, name="",
             color="", book=NOBOOK, fib=[], D=0, objs=[])
    if isinstance(x, Tensor):
        r = root_of(x)
        e["k"] = "T" if isinstance(r, Fiber) else "P"
        e["tree"] = enc(r, ids)
        e["rid"] = [rid(i) for i in x.getRankIds()]
        e["D"] = len(x.ranks)
        e["mut"], e["name"], e["color"] = bool(x.isMutable()), str(x.getName()), str(x.getColor())
        if isinstance(r, Fiber):
            try:
                e["shape"] = [shp(s) for s in x.getShape()]
            except Exception:
                e["shape"] = [[-LIM]]
            try:
                a = x.getShape(authoritative=True)
                e["auth"] = [] if a is None else [shp(s) for s in a]
            except Exception:
                e["auth"] = [[-LIM]]
            try:
                e["dflt"] = val(Payload.get(x.getDefault())) or [0, 0]
            except Exception:
                e["dflt"] = [0, 0]
            e["fmt"] = [q.getFormat() for q in x.ranks]
            e["book"] = book(x, ids) or NOBOOK
            e["fib"] = fibers(r, ids)
    elif isinstance(x, Fiber):
        e["k"] = "L" if x.isLazy() else "F"
        e["tree"] = enc(x, ids)
        if not x.isLazy():
            e["fib"] = fibers(x, ids)
            e["rid"] = [e["fib"][0]["rid"]]
    elif isinstance(x, Payload):
        e["k"] = "B"
        e["tree"] = enc(x, ids)
    if withobjs:
        e["objs"] = objs(x, ids)
    return e


# ---- random tensors ---------------------------------------------------------

class TT:
    """A tensor with the generator's knowledge of its coordinate styles."""

    def __init__(self, T, styles, d, shape, split=None, rel=False):
        self.T, self.styles, self.d, self.shape = T, list(styles), d, shape
        self.split = split or []      # depths whose rank is the upper half of an absolute, halo-free split

    @property
    def D(self):
        return len(self.styles)


NAMES = "MKNPQ"


def rand_tensor(rng, D=None, nc=None, d=None, scratch=None, kinds=None):
    D = D or rng.choice((1, 2, 2, 3, 3, 4))
    nc = nc or size(rng, D, (2, 3, 3, 4) if D < 4 else (2, 3), 0.03)
    shape = [max(1, nc + rng.randint(0, 2)) for _ in range(D)]
    d = d if d is not None else rng.choice((0, 0, 0, 7))
    code = [d, 1]
    if VALUES:                        # leaves (and default) of other types
        code = [rng.choice((0, 1)), 1]
        d = num(code)
        kinds = [k for k in kinds or ["fiber"] if k in ("fiber", "noshape", "unc", "empty", "sub", "mid")] or ["fiber"]
    kind = rng.choice(kinds or ["fiber", "fiber", "fiber", "noshape", "unc", "random", "yaml", "empty", "ref", "sub", "mid"])
    ids_ = list(NAMES[:D])
    tree = rtree(rng, D, nc, code, rng.choice((0.4, 0.6, 0.9)) if rng.random() < 0.75 else None)
    name = rng.choice(("", "A", "Z1"))
    if kind in ("unc", "random", "yaml") and d != 0 and kind == "yaml":
        d = 0
        code = [0, 1]
        tree = rtree(rng, D, nc, code, 0.6)
    if kind == "unc":
        def nest(k):
            if k == D:
                return rng.choice((d, d, 0, 1, 2, 3) if not VALUES else [d] + VALUES)
            return [nest(k + 1) for _ in range(shape[k])]
        T = Tensor.fromUncompressed(ids_, nest(0), name=name, default=d)
    elif kind == "random":
        T = Tensor.fromRandom(ids_, shape, [rng.choice((0.4, 0.7, 1.0)) for _ in range(D)], seed=rng.randint(0, 9999), default=d)
    elif kind == "empty":
        T = Tensor(rank_ids=ids_, shape=shape if rng.random() < 0.7 else None, default=d, name=name)
    elif kind == "ref":
        T = Tensor(rank_ids=ids_, shape=shape if rng.random() < 0.7 else None, default=d, name=name)
        for _ in range(rng.randint(0, 6)):
            r = T.getPayloadRef(*[rng.randrange(nc) for _ in range(D)])
            if rng.random() < 0.85:
                r <<= rng.randint(1, 4)
    elif kind == "noshape":
        T = Tensor.fromFiber(ids_, mk(tree, code), default=d, name=name)
    elif kind == "sub":           # a sub-fiber of another tensor
        big = Tensor.fromFiber(["X"] + ids_, mk(node("F", [[0], [2]], [tree, rtree(rng, D, nc, code, 0.5)], g="i"), code),
                               shape=[3] + shape, default=d)
        T = Tensor.fromFiber(ids_, big.getRoot().payloads[0], shape=shape if rng.random() < 0.5 else None, default=d)
    elif kind == "mid" and D > 1:  # a free fiber holding fibers of another tensor
        big = Tensor.fromFiber(["X"] + ids_[1:], mk(node("F", [[0], [2]], [rtree(rng, D - 1, nc, code, 0.6),
                                                                          rtree(rng, D - 1, nc, code, 0.6)], g="i"), code),
                               shape=[3] + shape[1:], default=d)
        f = Fiber([0, 1], list(big.getRoot().payloads), default=Fiber())
        T = Tensor.fromFiber(ids_, f, shape=shape if rng.random() < 0.5 else None, default=d)
        T._vt_other = None
        TT.other = big
    else:
        T = Tensor.fromFiber(ids_, mk(tree, code), shape=shape, default=d, name=name)
        if kind == "yaml" and scratch:
            fn = os.path.join(scratch, "t.yaml")
            T.dump(fn)
            T = Tensor.fromYAMLfile(fn)
    if rng.random() < 0.25:
        for i in T.getRankIds():
            T.setFormat(i, rng.choice("CU"))
    if rng.random() < 0.3:
        T.setMutable(rng.random() < 0.5)
    return TT(T, ["int"] * D, d, shape), kind


# ---- random transforms --------------------------------------------------------

def rsplit(rng, nc, tuplerank=False):
    k = rng.choice(["equal", "unequal"] if tuplerank else ["uniform", "uniform", "nonuniform", "equal", "unequal"])
    a = dict(kind=k, rel=False, pre=0, post=0, step=0, splits=[], sizes=[], positional=rng.random() < 0.1)
    if k in ("uniform", "equal"):
        a["step"] = rng.randint(1, nc + 1)
    if k == "nonuniform":
        a["splits"] = sorted(rng.sample(range(0, nc + 3), rng.randint(1, 3)))
        a["asfiber"] = rng.random() < 0.2
    if k == "unequal":
        a["sizes"] = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
    if not tuplerank:
        if rng.random() < 0.25:
            a["rel"] = True
        if rng.random() < 0.35:
            a["pre"] = rng.randint(0, 3)
            a["post"] = rng.randint(0, 3)
    return a


def rand_op(rng, t, nc=5, only=None):
    """An operation legal for t; None if the draw does not fit."""
    D = t.D
    o = rng.choice(only or ["split", "split", "split", "div", "floordiv", "swizzle", "swizzle", "swap", "flatten", "flatten",
                            "unflatten", "unflatten", "merge", "updcoords", "updpay", "deepcopy"])
    dep = rng.randrange(D)
    op = dict(o=o, depth=dep, levels=0, style="", byid=rng.random() < 0.4)
    if o == "split":
        if D >= 6:
            return None
        st = t.styles[dep]
        op.update(rsplit(rng, nc, st != "int"))
    elif o == "div":
        if t.styles[0] != "int" or D >= 6:
            return None
        op.update(depth=0, parts=rng.randint(1, 4))
    elif o == "floordiv":
        if D >= 6:
            return None
        op.update(depth=0, parts=rng.randint(1, 4))
    elif o == "swizzle":
        p = list(range(D))
        rng.shuffle(p)
        op["perm"] = p
    elif o == "swap":
        if D < 2:
            return None
        op["depth"] = rng.randrange(D - 1)
    elif o in ("flatten", "merge"):
        if D < 2:
            return None
        op["depth"] = dep = rng.randrange(D - 1)
        op["levels"] = lv = rng.randint(1, min(rng.choice((2, 2, 3)), D - 1 - dep))
        st = t.styles[dep:dep + lv + 1]
        ch = ["tuple", "pair"] if o == "flatten" else []
        allint = all(s == "int" for s in st)
        if allint and t.T.getShape(authoritative=True):
            ch.append("linear")
        if o == "flatten" and lv == 1 and dep in t.split:
            ch = ["absolute", "absolute", "tuple"]
        if o == "merge":
            ch = ["tuple"]
            if allint:
                ch = ["absolute", "relative", "tuple"] + [c for c in ch if c == "linear"]
            op["fn"] = rng.choice(["none", "sum", "max", "prod", "first"]) if not VALUES else "first"
        op["style"] = rng.choice(ch)
        if op["style"] == "pair" and any(s != "int" for s in st):
            return None
        if op["style"] == "tuple" and any(isinstance(s, tuple) and s[0] == "pair" and s[1] > 2 for s in st):
            return None
    elif o == "unflatten":
        st = t.styles[dep]
        if st == "int":
            c = [i for i, s in enumerate(t.styles) if s != "int"]
            if not c:
                return None
            op["depth"] = dep = rng.choice(c)
            st = t.styles[dep]
        # a rank id that does not name every part (a flattened rank that was split) cannot be unflattened further
        op["levels"] = rng.randint(1, max(1, min(st[1], len(t.T.getRankIds()[dep])) - 1))
        op["style"] = st[0]
    elif o == "updcoords":
        if t.styles[dep] != "int":
            return None
        op["fn"] = rng.choice([dict(k="shift", n=1), dict(k="rev", n=20), dict(k="scale", n=2), dict(k="xor", n=0)])
        if rng.random() < 0.15:
            op["newid"] = "U%d" % rng.randrange(9999)
        if rng.random() < 0.15:
            op["newshape"] = 100
    elif o == "updpay":
        op["fn"] = rng.choice(["inc", "box", "same"] if not VALUES else ["same"]) if dep == D - 1 else rng.choice(["same", "copy", "nonempty"])
    op["rids"] = [rid(x) for x in t.T.getRankIds()]
    return op


def merge_fn(k):
    if k == "none":
        return None

    def f(ps):
        vs = [Payload.get(p) for p in ps]
        if k == "sum":
            return sum(vs)
        if k == "max":
            return max(vs)
        if k == "first":
            return vs[0]
        r = 1
        for v in vs:
            r *= v
        return r
    return f


def apply(x, op):
    """Apply op to a tensor (or, for a fiber, the same-named fiber method)."""
    from machine import coordfn
    o = op["o"]
    T = isinstance(x, Tensor)
    kw = {}
    if op.get("byid") and (T or x.getOwner() is not None):
        kw["rankid"] = x.getRankIds()[op["depth"]]
        if op.get("wrongdepth"):
            kw["depth"] = op["wrongdepth"]
    else:
        kw["depth"] = op["depth"]
    sel = dict(kw)
    if o == "split":
        if op["rel"]:
            kw["relativeCoords"] = True
        if op["pre"]:
            kw["pre_halo"] = op["pre"]
        if op["post"]:
            kw["post_halo"] = op["post"]
        k = op["kind"]
        if op.get("positional") and not op.get("wrongdepth"):
            # (partitioning, relativeCoords, depth, rankid, pre_halo, post_halo)
            arg = op["step"] if k in ("uniform", "equal") else list(op["splits"]) if k == "nonuniform" else list(op["sizes"])
            fn = dict(uniform="splitUniform", nonuniform="splitNonUniform", equal="splitEqual", unequal="splitUnEqual")[k]
            return getattr(x, fn)(arg, op["rel"], 0 if "rankid" in kw else op["depth"],
                                  *([kw.get("rankid"), op["pre"], op["post"]] if op["pre"] or op["post"] or "rankid" in kw else []))
        if k == "uniform":
            return x.splitUniform(op["step"], **kw)
        if k == "nonuniform":
            s = list(op["splits"])
            if op.get("asfiber"):
                s = Fiber(s, [1] * len(s))
            return x.splitNonUniform(s, **kw)
        if k == "equal":
            return x.splitEqual(op["step"], **kw)
        return x.splitUnEqual(list(op["sizes"]), **kw)
    if o == "div":
        return x / op["parts"]
    if o == "floordiv":
        return x // op["parts"]
    if o == "swizzle":
        r = x.getRankIds()
        return x.swizzleRanks([r[i] for i in op["perm"]])
    if o == "swap":
        return x.swapRanks(depth=op["depth"]) if T else x.swapRanks()
    if o == "flatten":
        s = dict(coord_style=op["style"]) if T else dict(style=op["style"])
        return x.flattenRanks(depth=op["depth"], levels=op["levels"], **s)
    if o == "merge":
        s = dict(coord_style=op["style"]) if T else dict(style=op["style"])
        f = merge_fn(op["fn"])
        if f is not None:
            s["merge_fn"] = f
        return x.mergeRanks(depth=op["depth"], levels=op["levels"], **s)
    if o == "unflatten":
        return x.unflattenRanks(depth=op["depth"], levels=op["levels"]) if T else x.unflattenRanks(levels=op["levels"])
    if o == "updcoords":
        kw = dict(new_rank_id=op["newid"]) if "newid" in op else {}
        if "newshape" in op:
            kw["new_shape"] = op["newshape"]
        return x.updateCoords(coordfn(op["fn"]), **sel, **kw)
    if o == "updpay":
        k = op["fn"]

        def f(i, c, p):
            if k == "inc":
                return Payload.get(p) + 1
            if k == "box":
                return Payload(Payload.get(p) + 2)
            if k == "copy":
                return copymod.deepcopy(p)
            if k == "nonempty":
                return p.nonEmpty()
            return p
        return x.updatePayloads(f, **sel)
    if o == "deepcopy":
        return copymod.deepcopy(x)
    if o == "copy":
        return x.copy()
    raise ValueError(o)


def after(t, op, R):
    """The generator's view of a result."""
    st, sh = list(t.styles), list(t.shape)
    o, dep, lv = op["o"], op["depth"], op["levels"]
    split = []
    if o in ("split", "div", "floordiv"):
        st.insert(dep, "int" if st[dep] == "int" else st[dep])
        sh.insert(dep, sh[dep])
        split = [i if i < dep else i + 1 for i in t.split if i != dep]
        if o != "split" or not (op["rel"] or op["pre"] or op["post"]):
            split.append(dep)
    elif o == "swizzle":
        st = [st[i] for i in op["perm"]]
        sh = [sh[i] for i in op["perm"]]
    elif o == "swap":
        st[dep], st[dep + 1] = st[dep + 1], st[dep]
        sh[dep], sh[dep + 1] = sh[dep + 1], sh[dep]
    elif o in ("flatten", "merge"):
        sub = st[dep:dep + lv + 1]
        n = sum(1 if s == "int" else s[1] for s in sub)
        new = "int"
        if op["style"] == "tuple":
            new = ("tuple", n)
        elif op["style"] == "pair":
            new = ("pair", n)
        elif op["style"] == "absolute":
            new = sub[-1]
        st[dep:dep + lv + 1] = [new]
        s2 = sh[dep:dep + lv + 1]
        if op["style"] == "linear":
            v = 1
            for q in s2:
                v *= q
        elif op["style"] == "relative":
            v = sum(s2)
        else:
            v = s2[-1]
        sh[dep:dep + lv + 1] = [v]
    elif o == "unflatten":
        n = st[dep][1]
        rest = n - lv
        st[dep:dep + 1] = ["int"] * lv + ["int" if rest == 1 else (st[dep][0], rest)]
        sh[dep:dep + 1] = [sh[dep]] * lv + [sh[dep]]
    elif o in ("deepcopy", "updpay"):
        split = list(t.split)
    return TT(R, st, t.d, sh, split)


def stir(rng, T, d):
    """Write some of the stored leaves in place."""
    def go(f):
        for p in f.payloads:
            if isinstance(p, Fiber):
                go(p)
            elif isinstance(p, Payload) and type(p.value) in (int, float) and type(d) in (int, float) and rng.random() < 0.4:
                p <<= rng.choice((d, 0, 1, 2, 5))
    r = root_of(T)
    if isinstance(r, Fiber):
        go(r)


def chains(ctx, num, length, emit, only=None, kinds=None, D=None, d=None, exo=0):
    """Chains of transforms; emit(t, op, ids, pre, post, R, res, err)."""
    rng = ctx.rng
    for h in range(num):
        exotic(rng, exo)
        err, r = ctx.call(rand_tensor, rng, D, None, d, ctx.scratch, kinds)
        if r is None:
            ctx.notes["tensor_fail_" + err] += 1
            continue
        t, kind = r
        k = 0
        for _ in range(length * 3):
            if k >= length:
                break
            op = rand_op(rng, t, only=only)
            if op is None:
                continue
            k += 1
            if rng.random() < 0.12:
                # the operand changes after it was last looked at or transformed
                ctx.call(apply, t.T, op) if rng.random() < 0.5 else poke(t.T)
                stir(rng, t.T, t.d)
            ids = Ids()
            pre = tinfo(t.T, ids, True)
            err, R = ctx.call(apply, t.T, op)
            post = tinfo(t.T, ids, True)
            res = tinfo(R, ids, True)
            emit(t, op, ids, pre, post, R, res, err, kind if k == 1 else "chain")
            if err or not isinstance(R, Tensor):
                ctx.notes["err:%s:%s" % (op["o"], err)] += 1
                break
            t = after(t, op, R)
            if len(repr(res["tree"])) > 12000:
                break
    exotic(rng, 0)
