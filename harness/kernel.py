"""Sum-of-products kernels in the library's idiom: descriptions, and an interpreter.

A description says what is computed (operands, output variables), on which dataflow
(loop order, tiles, intersection style), and how operands are represented.  The
interpreter runs it with the library's co-iteration operators.  What it should give is
in spec/Kernel.tla.
"""
import itertools

from ft import Fiber, Payload, Tensor, Metrics, enc, flat, val


class Kern:
    """ops: list of variable lists; out: variables; shape: var -> int; vals: per operand
    {point: value}; tiles: var -> (size, ...) outermost first; rel: vars with relative
    tile coordinates; order: loop ranks as names; style: rank -> and/isect/lf."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def var(self, r):
        return r.split(".")[0]

    def ranks(self, v):
        return tile_ranks(v, self.tiles.get(v, ()))

    def key(self):
        return (str(self.ops), str(self.out), str(self.order), str(sorted(self.tiles.items())), str(self.vals),
                str(sorted(self.style.items())), str(self.rel))


def tile_ranks(v, sizes):
    if not sizes:
        return [v]
    r, pre = [], v
    for _ in sizes:
        r.append(pre + ".1")
        pre += ".0"
    return r + [pre]


def rand_form(rng, nv=None):
    """Random einsum: 1-3 variables, 1-3 operands."""
    named = [
        ([["K"], ["K"]], []), ([["M"], ["M"]], ["M"]), ([["M", "K"], ["K"]], ["M"]),
        ([["M", "K"], ["K", "N"]], ["M", "N"]), ([["M", "K"], ["N", "K"]], ["M", "N"]),
        ([["M", "K"]], ["M"]), ([["M", "K"]], ["K"]), ([["M", "K"]], []), ([["M", "N"]], ["N", "M"]),
        ([["M", "N"], ["M", "N"]], ["M", "N"]), ([["M", "N"], ["N", "M"]], ["M", "N"]),
        ([["M", "N"], ["M", "N"]], []), ([["M"], ["N"]], ["M", "N"]), ([["M"], ["N"]], ["N", "M"]),
        ([["K"], ["K"], ["K"]], []), ([["M"], ["M"], ["M"]], ["M"]),
        ([["M", "K"], ["K"], ["M"]], ["M"]), ([["M", "K"], ["K", "N"], ["M", "N"]], ["M", "N"]),
        ([["M", "N", "K"]], ["M"]), ([["M", "N", "K"], ["K"]], ["M", "N"]), ([["M", "N", "K"], ["N", "K"]], ["M"]),
        ([["M", "N", "K"], ["M", "N", "K"]], []), ([["M", "K"], ["K"], ["N"]], ["M", "N"]), ([["K"]], []), ([["K"]], ["K"]),
    ]
    if rng.random() < 0.6:
        return rng.choice(named)
    vs = ["M", "N", "K"][:nv or rng.choice([1, 2, 2, 3, 3])]
    while True:
        ops = []
        for _ in range(rng.choice([1, 2, 2, 2, 3])):
            s = rng.sample(vs, rng.randint(1, len(vs)))
            ops.append(s)
        used = sorted({x for o in ops for x in o})
        if len(used) == len(vs):
            break
    out = rng.sample(vs, rng.randint(0, len(vs)))
    return ops, out


def rand_vals(rng, vs, shape, dens=None, values=(1, 2, 3, -1, -2), runs=False):
    dens = rng.choice([0, 0.2, 0.5, 0.5, 0.7, 0.9, 1]) if dens is None else dens
    pts = list(itertools.product(*[range(shape[v]) for v in vs]))
    if runs:
        # long runs with and without values along the last variable
        res, on = {}, []
        for p in pts:
            if not on:
                on = [rng.choice((0, 0, 0.2, 1))] * rng.randint(1, max(2, shape[vs[-1]] // 2))
            if rng.random() < on.pop():
                res[p] = rng.choice(values)
        return res
    return {p: rng.choice(values) for p in pts if rng.random() < dens}


def rand_order(rng, tiles, vs):
    """All loop ranks, tiles before their insides."""
    chains = [tile_ranks(v, tiles.get(v, ())) for v in vs]
    r = []
    chains = [list(c) for c in chains]
    while any(chains):
        c = rng.choice([c for c in chains if c])
        r.append(c.pop(0))
    return r


def orders(tiles, vs):
    """Every loop order."""
    def rec(chains):
        if not any(chains):
            yield []
            return
        for i, c in enumerate(chains):
            if c:
                rest = [list(x) for x in chains]
                h = rest[i].pop(0)
                for t in rec(rest):
                    yield [h] + t
    return list(rec([tile_ranks(v, tiles.get(v, ())) for v in vs]))


def rand_kernel(rng, tile=True, styles=("and", "and", "isect", "lf"), maxshape=4, form=None, rel=True, runs=False):
    ops, out = form or rand_form(rng)
    vs = sorted({x for o in ops for x in o})
    shape = {v: rng.randint(1, maxshape) for v in vs}
    if runs:
        shape[rng.choice(vs)] = rng.choice((10, 18, 34) if len(vs) == 1 else (10, 18) if len(vs) == 2 else (9,))
    tiles = {}
    if tile:
        for v in vs:
            if rng.random() < 0.35:
                s = rng.randint(1, shape[v] + 1)
                tiles[v] = (s,)
                if s > 1 and rng.random() < 0.25:
                    tiles[v] = (s, rng.choice([d for d in range(1, s + 1) if s % d == 0]))
    order = rand_order(rng, tiles, vs)
    return Kern(ops=ops, out=out, shape=shape, vals=[rand_vals(rng, o, shape, runs=runs) for o in ops], tiles=tiles,
                rel={v for v in tiles if rel and rng.random() < 0.3}, order=order,
                style={r: rng.choice(styles) for r in order}, build=[rng.choice(["nest", "fiber", "raw", "kernel"]) for _ in ops],
                junk=[rng.random() < 0.4 for _ in ops], split_first=rng.random() < 0.7, filt=rng.random() < 0.5,
                zshape=rng.random() < 0.6, untile=bool(tiles) and rng.random() < 0.4, seed=rng.random())


# ---- operands ------------------------------------------------------------

def tree(vs, vals, shape, rng=None):
    """Nested pairs of a content, with explicit zeros and empty sub-fibers when rng is given."""
    some = 0.25 if not rng or rng.random() < 0.7 else 0.8

    def rec(k, pts):
        res = []
        for c in range(shape[vs[k]]):
            sub = {p[1:]: x for p, x in pts.items() if p[0] == c}
            if k == len(vs) - 1:
                if sub:
                    res.append((c, sub[()]))
                elif rng and rng.random() < some:
                    res.append((c, 0))
            elif sub or (rng and rng.random() < 0.2):
                res.append((c, rec(k + 1, sub)))
        return res
    return rec(0, vals)


def fib(t, shape, vs):
    cs = [c for c, _ in t]
    ps = [fib(s, shape, vs[1:]) if isinstance(s, list) else s for _, s in t]
    return Fiber(cs, ps, shape=shape[vs[0]])


def nest(vs, vals, shape, pre=()):
    if len(pre) == len(vs):
        return vals.get(pre, 0)
    return [nest(vs, vals, shape, pre + (c,)) for c in range(shape[vs[len(pre)]])]


def operand(k, i, rng):
    vs, vals = k.ops[i], k.vals[i]
    sh = [k.shape[v] for v in vs]
    name = "ABC"[i]
    if k.build[i] == "nest":
        return Tensor.fromUncompressed(rank_ids=list(vs), root=nest(vs, vals, k.shape), shape=sh, name=name)
    if k.build[i] == "fiber":
        f = fib(tree(vs, vals, k.shape, rng if k.junk[i] else None), k.shape, vs)
        return Tensor.fromFiber(rank_ids=list(vs), fiber=f, shape=sh, name=name)
    t = Tensor(rank_ids=list(vs), shape=sh, name=name)
    if k.build[i] == "kernel":
        # itself the result of a kernel: a sum of two parts, each copied by populating
        parts = [{}, {}]
        for p, x in vals.items():
            parts[rng.random() < 0.5][p] = x

        def copy(z, a, d):
            for _, (zz, aa) in z << a:
                if d == 1:
                    zz += aa
                else:
                    copy(zz, aa, d - 1)
        for q in parts:
            copy(t.getRoot(), Tensor.fromUncompressed(rank_ids=list(vs), root=nest(vs, q, k.shape), shape=sh).getRoot(), len(vs))
        return t
    for p, x in sorted(vals.items(), key=lambda y: rng.random()):
        r = t.getPayloadRef(*p)
        r <<= x
    if k.junk[i]:
        for p in itertools.product(*[range(s) for s in sh]):
            if rng.random() < 0.2:
                t.getPayloadRef(*p)
    return t


def dataflow(k, t, vs):
    """Tile and swizzle an operand to match the loop order."""
    want = [r for r in k.order if k.var(r) in vs]
    if not k.split_first:
        t = t.swizzleRanks(sorted(vs, key=lambda v: k.order.index(tile_ranks(v, k.tiles.get(v, ()))[0])))
    for v in vs:
        name = v
        for s in k.tiles.get(v, ()):
            ids = t.getRankIds()
            t = t.splitUniform(s, depth=ids.index(name), relativeCoords=v in k.rel)
            name += ".0"
    if t.getRankIds() != want:
        t = t.swizzleRanks(want)
    return t


def output(k):
    ids = [r for r in k.order if k.var(r) in k.out]
    if k.zshape or not ids:
        return Tensor(rank_ids=ids, shape=[k.shape[k.var(r)] for r in ids], name="Z") if ids else Tensor(rank_ids=[], name="Z")
    return Tensor(rank_ids=ids, name="Z")


def untile(k, z):
    """Undo the tiles of an output and bring it to the declared order."""
    for v in k.out:
        n = len(k.tiles.get(v, ()))
        if not n:
            continue
        rs = k.ranks(v)
        ids = z.getRankIds()
        rest = [r for r in ids if r not in rs]
        z = z.swizzleRanks(rest + rs) if ids != rest + rs else z
        z = z.flattenRanks(depth=len(rest), levels=n, coord_style="relative" if v in k.rel else "absolute")
        z.setRankIds(rest + [v])
    if z.getRankIds() != list(k.out):
        z = z.swizzleRanks(list(k.out))
    return z


def offset(b, pre):
    """Offset of a projection: a number, or (base, factor, level) of an outer coordinate."""
    return b[0] + b[1] * pre[b[2]] if isinstance(b, tuple) else b


# ---- interpreter ---------------------------------------------------------

class Log:
    """What the loop nest really did."""

    def __init__(self, order):
        self.bodies = {r: 0 for r in order}
        self.mul = self.add = self.upd = 0
        self.pre = []            # prefixes of the bodies, in order
        self.insts = None        # per loop instance (C16)


def execute(k, nodes, z, log, hooks=None, z2=None):
    """Run the loop nest on root fibers `nodes` and output payload z (z2: a second output
    that is populated underneath the first)."""
    order, n = k.order, len(k.ops)
    has = [[r for r in order if k.var(r) in vs] for vs in k.ops]
    outr = [r for r in order if k.var(r) in k.out]
    proj = getattr(k, "proj", {})
    step = getattr(k, "step", None)

    def combine(r, parts, fs, pre):
        for m, i in enumerate(parts):
            if (i, r) in proj:
                a, b, iv, _ = proj[i, r]
                b = offset(b, pre)
                fs[m] = fs[m].project(trans_fn=lambda c, a=a, b=b: a * c + b, interval=iv, rank_id=r)
        st = k.style[r]
        if len(fs) == 1 or st == "get":
            return fs[0]
        if st in ("and", "or"):
            x = fs[0]
            for f in fs[1:]:
                x = x & f if st == "and" else x | f
            return x
        if st == "union":
            return Fiber.union(*fs)
        return Fiber.intersection(*fs, style="two-finger" if st == "isect" else "leader-follower")

    def unpack(r, p, m, c, fs):
        if m == 1:
            return [p]
        st = k.style[r]
        if st == "get":
            return [p] + [f.getPayload(c, trace=f"get_{j}") for j, f in enumerate(fs[1:], 1)]
        if st in ("and", "or"):
            res = []
            for _ in range(m - 1):
                if st == "and":
                    p, b = p
                else:
                    _, p, b = p
                res.append(b)
            res.append(p)
            return res[::-1]
        return list(p)[1:] if st == "union" else list(p)

    def loop(d, nodes, z, z2, pre):
        if d == len(order):
            if step:
                step()
            vs = list(nodes)
            x = vs[0]
            for y in vs[1:]:
                x = x * y
                log.mul += 1
            if k.filt and not x != 0:
                return
            body = getattr(k, "body", "acc")
            if body == "scale":
                x = 2 * x
                log.mul += 1
            elif body == "temp":
                t = Payload(0)
                t += x
                t *= 3
                log.upd += 2
                log.mul += 1
                x = t
            if z != 0 or body == "set":
                log.add += 1
            log.upd += 1
            if body == "set":
                z <<= z + x
            else:
                z += x
            if z2 is not None and k.second and log.upd % 2:
                if z2 != 0:
                    log.add += 1
                log.upd += 1
                z2 += 1
            return
        r = order[d]
        parts = [i for i in range(n) if r in has[i]]
        fs = [nodes[i] for i in parts]
        h = hooks.enter(k, r, pre, parts, fs, [z, z2] if r in outr and r not in getattr(k, "refs", ()) else []) if hooks else None
        it = combine(r, parts, list(fs), pre)
        ref = r in outr and r in getattr(k, "refs", ())
        if r in outr and not ref:
            it = z << (it if z2 is None else z2 << it)
        for c, p in it:
            log.bodies[r] += 1
            log.pre.append(pre + (flat(c)[0],))
            if h:
                h.body(c)
            zz, yy = z, z2
            if ref:
                zz = z.getPayloadRef(c, trace="ref")
                if h:
                    h.ref(z, c)
                if z2 is not None:
                    yy = z2.getPayloadRef(c)
            elif r in outr:
                zz, p = p
                if z2 is not None:
                    yy, p = p
            new = list(nodes)
            for i, q in zip(parts, unpack(r, p, len(parts), c, fs)):
                new[i] = q
            loop(d + 1, new, zz, yy, pre + (flat(c)[0],))
        if h:
            h.leave()

    loop(0, nodes, z, z2, ())


class Hooks:
    """Record the loop instances: what each walks, its bodies, its destinations."""

    def __init__(self):
        self.insts = []

    def enter(self, k, r, pre, parts, fs, zs):
        return Inst(self, k, r, pre, parts, fs, [z for z in zs if z is not None])


def src(f):
    d = f.getDefault()
    if f.getRankAttrs().getFormat() == "U" or (f.getOwner() is not None and f.getOwner().getFormat() == "U"):
        lo, hi = f.getActive()
        return {"t": "src", "a": [], "u": True, "e": [{"c": c, "i": c - lo, "n": True} for c in range(lo, hi)]}
    return {"t": "src", "a": [], "e": [{"c": flat(c)[0], "i": j, "n": not Payload.isEmpty(p, default=d)}
                                      for j, (c, p) in enumerate(zip(f.coords, f.payloads))]}


class Inst:
    def __init__(self, hooks, k, r, pre, parts, fs, zs):
        ns = []
        for i, f in zip(parts, fs):
            x = src(f)
            if (i, r) in getattr(k, "proj", {}):
                a, b, iv, rid = k.proj[i, r]
                x = {"t": "proj", "a": [x], "k": a, "b": offset(b, pre), "iv": list(iv) if iv else [], "r": rid}
            ns.append(x)
        if len(ns) > 1 and k.style[r] in ("lf", "get"):
            for y in ns[1:]:
                if y.pop("u", False):      # where an uncompressed follower keeps an element is not observable
                    y["e"] = [dict(z, i=-1) for z in y["e"]]
            x = {"t": k.style[r], "a": ns}
        else:
            x = ns[0]
            for y in ns[1:]:
                x = {"t": "and" if k.style[r] in ("and", "isect") else "or", "a": [x, y]}
        self.zs = zs
        self.zr = []
        for z in zs[::-1]:
            rec = {"s": [flat(c)[0] for c in z.coords], "b": [],
                   "u": z.getOwner() is not None and z.getOwner().getFormat() == "U"}
            self.zr.insert(0, rec)
            x = {"t": "pop", "a": [x], "z": rec}
        self.rec = {"r": r, "pre": list(pre), "x": x, "b": [], "ref": []}
        hooks.insts.append(self.rec)

    def settle(self):
        """What became of the previous body."""
        for z, rec in zip(self.zs, self.zr):
            if rec["b"] and "kept" not in rec["b"][-1]:
                b = rec["b"][-1]
                cs = [flat(c)[0] for c in z.coords]
                b["kept"] = b["c"] in cs
                b["ai"] = cs.index(b["c"]) if b["kept"] else -1

    def body(self, c):
        self.settle()
        c = flat(c)[0]
        for z, rec in zip(self.zs, self.zr):
            had = c in self.had(rec)
            rec["b"].append({"c": c, "had": had, "bi": [flat(x)[0] for x in z.coords].index(c) if had else -1})
        self.rec["b"].append(c)

    def ref(self, z, c):
        c = flat(c)[0]
        self.rec["ref"].append([c, [flat(x)[0] for x in z.coords].index(c)])

    def had(self, rec):
        """Coordinates held before the body that is starting."""
        h = set(rec["s"])
        for b in rec["b"]:
            if b.get("kept", True):
                h.add(b["c"])
            else:
                h.discard(b["c"])
        return h

    def leave(self):
        self.settle()


def accumulator(z):
    """The payload the interpreter reduces into."""
    return z.getRoot()


# ---- descriptions for the specification -----------------------------------

def spec_ops(k):
    return [{"v": list(vs), "s": [[list(p), x] for p, x in sorted(v.items())]} for vs, v in zip(k.ops, k.vals)]


def zmap(k, ids):
    """Where the output variables are in the rank list: positions, relative, outer tile."""
    r = []
    for v in k.out:
        pos = [i + 1 for i, x in enumerate(ids) if k.var(x) == v]
        r.append({"r": pos, "rel": v in k.rel and len(pos) > 1, "s": k.tiles[v][0] if len(pos) > 1 else 0})
    return r
