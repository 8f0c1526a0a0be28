"""C20: encoding a tensor in a compression format loses nothing."""
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vt
from ft import Fiber, Tensor, Payload, enc, val, flat
from fibertree.codec.tensor_codec import Codec
import kernel as K
import xform


class Cache(dict):
    """Stands in for the LRU cache of the (uninstalled) boltons package."""
    miss_count = 0
    hit_count = 0

    def __init__(self, cap):
        self.cap = cap

    def get(self, k, d=None):
        if k in self:
            self.hit_count += 1
            return self[k]
        self.miss_count += 1
        return d

    def __setitem__(self, k, v):
        if k not in self and len(self) >= self.cap:
            del self[next(iter(self))]
        dict.__setitem__(self, k, v)

    def __str__(self):
        return ""


SHARED = Cache(500)        # one cache behind the fibers of several tensors


class Null(io.TextIOBase):
    def write(self, s):
        return len(s)


def num(x):
    return x if isinstance(x, int) and not isinstance(x, bool) and abs(x) < 2 ** 31 else -9


def value(x):
    return val(x.value if isinstance(x, Payload) else x) or [-99991, 7]


def steps(f, base, leaf, later):
    """Scan one fiber from a base; a generator, so that scans interleave."""
    f.setupSlice(base) if base else f.setupSlice()
    hs, got = [], []

    def look(h):
        c, p = f.handleToCoord(h), f.handleToPayload(h)
        got.append([num(c), value(f.payloadToValue(p)) if leaf else num(f.payloadToFiberHandle(p))])
    while len(hs) < 2000:
        h = f.nextInSlice()
        if h is None:
            break
        hs.append(h)
        if not later:
            look(h)
        yield None
    if later:
        for h in hs:
            look(h)
    yield got


def scan(rng, todo):
    """Run scans, one after the other or interleaved: [(fiber, base, leaf)] -> [got]."""
    gs = [steps(f, b, leaf, rng.random() < 0.3) for f, b, leaf in todo]
    res = [None] * len(gs)
    live = list(range(len(gs)))
    mix = len({id(f) for f, _, _ in todo}) == len(todo) and rng.random() < 0.5
    while live:
        i = rng.choice(live) if mix else live[0]
        r = next(gs[i])
        if r is not None:
            res[i] = r
            live.remove(i)
    return res


def source(ctx):
    """A tensor, and the shapes its encoding must have (None: unknown)."""
    rng = ctx.rng
    D = rng.choice([1, 2, 2, 2, 3, 3, 3]) if rng.random() < 0.92 else 4
    ids = rng.sample(["K", "M", "N", "J1", "x"], D)
    big = rng.random() < 0.15
    shape = {r: rng.randint(1, {4: 3, 3: 4}.get(D, 6)) for r in ids}
    if big and D < 3:
        shape[ids[-1]] = rng.choice([31, 32, 33, 64, 65, 130, 260] if D == 1 else [31, 32, 33, 65])
    vals = K.rand_vals(rng, ids, shape, values=rng.choice([(1, 2, 3, -1, -2), (0.5, 2.25, 7), (1,), (100, 1, 32)]))
    sh = [shape[r] for r in ids]
    kind = rng.choice(["fiber", "fiber", "junk", "nest", "insert", "loose"])
    if kind == "nest":
        T = Tensor.fromUncompressed(rank_ids=ids, root=K.nest(ids, vals, shape), shape=sh)
    elif kind == "insert":
        T = Tensor(rank_ids=ids, shape=sh)
        pts = list(vals)
        rng.shuffle(pts)
        for p in pts:
            ref = T.getRoot().getPayloadRef(*p)
            ref <<= vals[p]
    elif kind == "loose":
        T = Tensor.fromFiber(rank_ids=ids, fiber=K.fib(K.tree(ids, vals, shape, rng if rng.random() < 0.5 else None), shape, ids) if rng.random() < 0.5 else
                             bare(K.tree(ids, vals, shape)))
        sh = None if T.getShape(authoritative=True) is None else T.getShape()
    else:
        T = Tensor.fromFiber(rank_ids=ids, fiber=K.fib(K.tree(ids, vals, shape, rng if kind == "junk" else None), shape, ids), shape=sh)
    if sh and D < 3 and rng.random() < 0.2:
        k = rng.random()
        if k < 0.3 and D == 2:
            T2 = ctx.call(T.swapRanks)[1]
        elif k < 0.6:
            T2 = ctx.call(T.splitUniform, rng.randint(1, 4), rng.randrange(D), relativeCoords=rng.random() < 0.5)[1]
        elif k < 0.8:
            T2 = ctx.call(T.splitEqual, rng.randint(1, 3), rng.randrange(D))[1]
        else:
            T2 = ctx.call(lambda: T + T if False else T.__deepcopy__({}))[1]
        if T2 is not None and T2.getShape(authoritative=True) is not None and T2.getShape() and all(isinstance(x, int) for x in T2.getShape()):
            T, sh = T2, T2.getShape()
    if rng.random() < 0.1:
        T.setFormat(rng.choice(T.getRankIds()), "U")
    return T, sh


def bare(t):
    return Fiber([c for c, _ in t], [bare(s) if isinstance(s, list) else s for _, s in t])


def uniform(T, sh):
    """Every fiber of a rank has the rank's shape."""
    return all(f.getShape(all_ranks=False) == s for r, s in zip(T.ranks, sh) for f in r.getFibers())


def one(ctx, T, sh, desc):
    rng = ctx.rng
    D = len(desc)
    impose = None
    low = T.getShape()
    if not sh or not uniform(T, sh) or rng.random() < 0.4:
        impose = [s + rng.choice([0, 0, 1, 3]) for s in low]
        if not sh or not uniform(T, sh):
            impose = [max(a, 1, *[f.getShape(all_ranks=False) for f in r.getFibers()] or [0]) for a, r in zip(impose, T.ranks)]
        if D == 1 and rng.random() < 0.1:
            impose = [rng.choice([40, 128, 129])] if low[0] <= 40 else impose
    dims = impose or list(sh)
    ranks = T.getRankIds()
    tree = enc(T.getRoot())

    def run():
        codec = Codec(tuple(desc), [True] * D)
        out = codec.get_output_dict(ranks)
        ot = [[] for _ in range(D + 1)]
        codec.encode(-1, T.getRoot(), ranks, out, ot, shape=impose)
        return out, ot
    with contextlib.redirect_stdout(Null()):
        err, res = ctx.call(run)
        ev = dict(op="codec", err=err, tree=tree, desc=list(desc), dims=dims, imposed=impose is not None, ranks=[str(r) for r in ranks],
                  out=dict(root=[], ranks=[]), fibers=[])
        if not err:
            out, ot = res
            ev["out"] = dict(root=[num(x) for x in out.get("payloads_root", [])],
                             ranks=[dict(c=[num(x) for x in out["coords_" + r.lower()]],
                                         p=[num(x) for x in out["payloads_" + r.lower()]] if i < D - 1 else [],
                                         v=[value(x) for x in out["payloads_" + r.lower()]] if i == D - 1 else []) for i, r in enumerate(ranks)])
            cache = Cache(rng.choice([1, 3, 32, 10 ** 6])) if rng.random() < 0.7 else SHARED
            for i, rank in enumerate(ot[1:]):
                for j, f in enumerate(rank):
                    if rng.random() < 0.5:
                        f.setName(f"T_{ranks[i]}_{j}")
                    f.cache = cache
                ev["fibers"].append(handles(ctx, rng, rank, dims[i], desc[i], i == D - 1))
    ctx.emit(ev, key=str((tree, desc, dims)))


def handles(ctx, rng, rank, dim, fmt, leaf):
    fs = [dict(err="", scans=[], look=[], size=0) for _ in rank]
    rounds = [[(j, 0) for j in range(len(rank))]]
    for _ in range(rng.choice([0, 1, 2])):
        rounds.append([(rng.randrange(len(rank)), rng.choice([0, rng.randrange(dim), dim - 1])) for _ in range(3)] if rank else [])
    for ps in rounds:
        err, got = ctx.call(scan, rng, [(rank[j], b, leaf) for j, b in ps], limit=60)
        for i, (j, b) in enumerate(ps):
            if err:
                fs[j]["err"] = err
            else:
                fs[j]["scans"].append(dict(base=b, got=got[i]))
    for j, f in enumerate(rank):
        if fmt == "C":
            for q in range(-1, dim + 2) if rng.random() < 0.3 else [rng.randint(-1, dim + 1) for _ in range(2)]:
                err, h = ctx.call(f.coordToHandle, q)
                fs[j]["err"] = fs[j]["err"] or err
                fs[j]["look"].append([q, -1 if h is None else num(h)])
        err, n = ctx.call(f.getSize)
        fs[j]["err"] = fs[j]["err"] or err
        fs[j]["size"] = num(n)
    return fs


def gen(ctx):
    descs = {D: list(itertools.product("UCB", repeat=D)) for D in (1, 2, 3, 4)}
    for _ in range(ctx.share(9000, 100000)):
        err, r = ctx.call(source, ctx)
        if err or not r:
            ctx.notes["source-" + err] += 1
            continue
        T, sh = r
        D = len(T.getRankIds())
        if D > 1 and (T.getShape() or [0])[0] * T.getShape()[-1] > 4000:      # (a slow interface, not a wrong one)
            continue
        if any(isinstance(x, list) or not isinstance(x, str) for x in T.getRankIds()) or len({x.lower() for x in T.getRankIds()}) < D:
            continue
        for desc in ctx.rng.sample(descs[D], 3):
            one(ctx, T, sh, desc)


if __name__ == "__main__":
    def mc(nc, d, x, th):
        return dict(name=f"codec-{nc}{d}", module="MC_Codec", args=("-deadlock", "-workers", "2" if not th else "8"), thorough_only=th, timeout=2400 if th else 600,
                    cfg="SPECIFICATION Spec\nCONSTANTS NC = %d Depth = %d Extra = %d\nINVARIANTS Sound Lossless Words Cut Children\n" % (nc, d, x))
    def sc(n, s, th):
        return dict(name=f"scan-{n}{s}", module="MC_Scan", args=("-deadlock", "-workers", "2"), thorough_only=th,
                    cfg="SPECIFICATION Spec\nCONSTANTS N = %d Scans = %d\nINVARIANTS Found Delivered\nPROPERTIES Done\n" % (n, s))
    vt.main("C20", gen, "Trace_C20", mc=[mc(3, 1, 1, False), mc(2, 2, 1, False), mc(1, 3, 1, False), mc(2, 3, 0, True), sc(5, 2, False), sc(8, 3, True)],
            rule="random tensors, each under three descriptors")
