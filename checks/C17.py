"""C17: buffer traffic follows its policy."""
import os
import random
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vt
from ft import Fiber, Tensor, Payload, Metrics
from fibertree.model import Format, Traffic
import kernel as K
import collect as C
from C16 import rand_nest


# ---- traces ----
def text(order, d, rows):
    ids = order[:d]
    return ",".join([r + "_pos" for r in ids] + ids + ["fiber_pos"]) + "\n" + "".join(
        ",".join(str(x) for x in r["s"] + r["p"] + [r["pos"]]) + "\n" for r in rows)


def parse(lines):
    """Trace lines (without header) -> rows; None if some row is not made of numbers >= 0."""
    rows = []
    for x in lines:
        v = x.strip().split(",")
        if not all(y.isdigit() for y in v):
            return None
        v = [int(y) for y in v]
        d = len(v) // 2
        rows.append(dict(s=v[:d], p=v[d:2 * d], pos=v[-1]))
    return rows


def iterations(rng, n):
    """Stamps and points of a loop nest of depth n: [(stamp, point)] per depth."""
    levels = [[((), ())]]
    up = rng.random() < 0.8
    for _ in range(n):
        nxt = []
        for s, p in levels[-1]:
            cs = rng.sample(range(6), rng.randint(0, 4)) if rng.random() < 0.9 else []
            cs.sort(reverse=not up)
            st = 0
            for c in cs:
                nxt.append((s + (st,), p + (c,)))
                st += 1 if rng.random() < 0.8 else 2
        levels.append(nxt)
    return levels


def rows_of(rng, its, many, npos, drop):
    """Accesses at some iterations."""
    rows = []
    for s, p in its:
        if rng.random() < drop:
            continue
        k = 1
        while rng.random() < many:
            k += 1
        for _ in range(k):
            q = list(p)
            if rng.random() < many:
                q[-1] = rng.randrange(7)
            rows.append(dict(s=list(s), p=q, pos=rng.randrange(npos)))
    return rows[:14]


def subset(rng, xs):
    return sorted(rng.sample(range(len(xs)), rng.randint(1, len(xs))))


# ---- one configuration: tensors, bindings and their rows ----
class Conf:
    pass


def tensors(rng, order, spec):
    """spec: {tensor: (loop ranks, shape)} -> formats with random widths, and the loop map."""
    c = Conf()
    c.order, c.formats, c.ranks, c.map = order, {}, [], {}
    for t, (loops, shape) in spec.items():
        ids = ["W" + r if rng.random() < 0.15 else r for r in loops]
        for a, b in zip(ids, loops):
            if a != b:
                c.map[a] = b
        sp = {}
        for a in ids:
            sp[a] = dict(cbits=rng.choice([1, 2, 3, 4]), pbits=rng.choice([1, 2, 4]), layout=rng.choice(["contiguous", "interleaved"]),
                         format=rng.choice("UC"), rhbits=rng.choice([0, 5]), fhbits=rng.choice([0, 3]))
        c.formats[t] = Format(Tensor(rank_ids=ids, shape=list(shape)), sp)
        c.ranks += [dict(t=t, id=a, loop=b, cb=sp[a]["cbits"], pb=sp[a]["pbits"], shape=s, lay=sp[a]["layout"]) for a, b, s in zip(ids, loops, shape)]
    return c


def simulate(ctx, c, tr, loops=None):
    """c.binds with files c.fns[(tensor, rank, type, access)]; run buffets and caches."""
    rng = ctx.rng
    bits = [r["cb"] + r["pb"] if b["ty"] == "elem" else r["cb" if b["ty"] == "coord" else "pb"]
            for b in c.binds for r in c.ranks if (r["t"], r["id"]) == (b["t"], b["r"])]
    c.line = max(bits) * rng.choice([1, 1, 2, 3]) + rng.choice([0, 0, 0, 1])
    straddle = False
    for b, w in zip(c.binds, bits):
        r = next(r for r in c.ranks if (r["t"], r["id"]) == (b["t"], b["r"]))
        b["ev"] = rng.choice(["root"] + [x for x in c.order[:c.order.index(r["loop"]) + 1]])
        b["evloop"] = b["ev"]
        if b["ev"] != "root" and rng.random() < 0.5:     # by the tensor's own name of the rank
            own = [x["id"] for x in c.ranks if x["loop"] == b["ev"] and x["t"] == b["t"]]
            b["ev"] = own[0] if own else b["ev"]
        if b["hasw"] and r["shape"] % (c.line // w):
            straddle = True
    mine = {f for f in os.listdir(tr)}
    before = {f: open(os.path.join(tr, f)).read() for f in mine}
    runs = []
    caps = sorted({0, c.line, rng.randint(0, 6) * c.line, rng.randint(0, 6 * c.line), 1000 * c.line})
    todo = [("buffet", rng.choice(caps))] + ([] if straddle else [("cache", x) for x in caps])
    rng.shuffle(todo)
    names = dict(c.map)
    for kind, cap in todo:
        bd = [dict({"tensor": b["t"], "rank": b["r"], "type": b["ty"]}, **({"evict-on": b["ev"]} if kind == "buffet" or rng.random() < 0.5 else {})) for b in c.binds]
        if not names and rng.random() < 0.7:
            args = []
        else:
            args = [names if rng.random() < 0.5 else dict(c.map)]
        err, res = ctx.call(getattr(Traffic, kind + "Traffic"), bd, c.formats, dict(c.fns), cap, c.line, *args)
        left = sorted(set(os.listdir(tr)) - mine)
        kept = all(os.path.exists(os.path.join(tr, f)) and open(os.path.join(tr, f)).read() == x for f, x in before.items())
        for f in left:
            os.unlink(os.path.join(tr, f))
        runs.append(dict(kind=kind, cap=cap, err=err, left=left, kept=kept,
                         res=[] if err else [dict(t=t, r=x.get("read", 0), w=x.get("write", 0)) for t, x in res[0].items()]))
    ctx.emit(dict(op="buf", order=c.order, ranks=c.ranks, binds=c.binds, line=c.line, runs=runs))


def fresh(ctx):
    tr = os.path.join(ctx.scratch, "tr")
    shutil.rmtree(tr, ignore_errors=True)
    os.makedirs(tr)
    return tr


def synthetic(ctx):
    rng = ctx.rng
    n = rng.randint(1, 3)
    order = rng.sample(["M", "K", "N", "K.1", "K.0"], n)
    its = iterations(rng, n)
    spec = {}
    for t in "AZ"[:rng.randint(1, 2)]:
        loops = [order[i] for i in subset(rng, order)]
        spec[t] = (loops, [rng.randint(1, 6) for _ in loops])
    c = tensors(rng, order, spec)
    tr = fresh(ctx)
    c.binds, c.fns = [], {}
    cand = [(r, ty) for r in c.ranks for ty in (["elem"] if r["lay"] == "interleaved" else ["coord", "payload"])]
    rng.shuffle(cand)
    many, drop = rng.choice([0, 0, 0.3, 0.5]), rng.choice([0, 0.2, 0.5])
    for i, (r, ty) in enumerate(cand[:rng.choice([1, 1, 1, 2, 3])]):
        d = order.index(r["loop"]) + 1
        acc = rng.choice(["r", "r", "r", "rw", "rw", "w"])
        npos = rng.randint(1, 8)
        b = dict(t=r["t"], r=r["id"], ty=ty, reads=[], writes=[], hasw="w" in acc)
        for a, key, name in (("r", "reads", "read"), ("w", "writes", "write")):
            if a in acc:
                b[key] = rows_of(rng, its[d], many, npos, drop)
                fn = os.path.join(tr, f"{i}-{name}.csv")
                open(fn, "w").write(text(order, d, b[key]))
                c.fns[r["t"], r["id"], ty, name] = fn
        c.binds.append(b)
    # the loop order is that of the deepest trace
    deep = max(order.index(next(r for r in c.ranks if (r["t"], r["id"]) == (b["t"], b["r"]))["loop"]) for b in c.binds) + 1
    c.order = order[:deep]
    bad = {r["id"] for r in c.ranks if r["loop"] not in c.order}
    c.map = {a: b for a, b in c.map.items() if a not in bad} if rng.random() < 0 else c.map
    simulate(ctx, c, tr)


def lines(fn):
    return open(fn).read().splitlines()


def recorded(ctx):
    """Traces of a real kernel."""
    rng = ctx.rng
    k = rand_nest(rng, ("and", "and", "isect", "lf", "or"), maxshape=5)
    k.zshape = True
    every = C.trace_types(k)
    err, ts = ctx.call(C.prepare, k)
    if err:
        return
    tr = fresh(ctx)
    prefix = os.path.join(tr, "t")
    C.reset()

    def body(step):
        z = K.output(k)
        K.execute(k, [t.getRoot() for t in ts], z.getRoot(), K.Log(k.order))
    err, res = ctx.call(C.collect, prefix, every, body)
    C.reset()
    if err:
        ctx.call(Metrics.endCollect)
        C.reset()
        return
    fs = {t: x for t, x in res[2].items() if x}
    rows = {t: parse(x[1:]) for t, x in fs.items()}
    usable = [t for t in fs if rows[t] is not None]
    if not usable:
        return
    for _ in range(2):
        filtering(ctx, tr, prefix, usable, rows)
    pick = rng.choice([t for t in usable]) if rng.random() < 0.5 else rng.choice([t for t in usable if "populate" in t[1]] or usable)
    chosen = [pick] + ([rng.choice(usable)] if rng.random() < 0.3 else [])
    deep = max(len(lines(f"{prefix}-{r}-{ty}.csv")[0].split(",")) // 2 for r, ty in chosen)
    order = k.order[:deep]
    spec, use = {}, []
    for i, (r, ty) in enumerate(chosen):
        d = len(lines(f"{prefix}-{r}-{ty}.csv")[0].split(",")) // 2
        loops = [x for x in order[:d - 1] if rng.random() < 0.7] + [order[d - 1]]
        t = "AB"[i]
        spec[t] = (loops, [k.shape[k.var(x)] if "." not in x else rng.randint(2, 6) for x in loops])
        use.append((t, d, r, ty))
    c = tensors(rng, order, spec)
    c.binds, c.fns = [], {}
    for t, d, r, ty in use:
        rk = next(x for x in c.ranks if x["t"] == t and x["loop"] == order[d - 1])
        for lt in (["elem"] if rk["lay"] == "interleaved" else rng.sample(["coord", "payload"], rng.randint(1, 2))):
            b = dict(t=t, r=rk["id"], ty=lt, reads=[], writes=[], hasw=False)
            pair = {"read": (r, ty)}
            if ty.startswith("populate_read"):
                pair["write"] = (r, ty.replace("read", "write"))
            elif ty.startswith("populate_write"):
                pair = {"read": (r, ty.replace("write", "read")), "write": (r, ty)}
            pair = {a: p for a, p in pair.items() if p in usable}
            if "write" in pair:
                b["hasw"] = True
            for a, p in pair.items():
                b[a + "s"] = rows[p]
                c.fns[t, rk["id"], lt, a] = f"{prefix}-{p[0]}-{p[1]}.csv"
            c.binds.append(b)
    if sum(len(b["reads"]) + len(b["writes"]) for b in c.binds) > 60:
        return
    simulate(ctx, c, tr)


def filtering(ctx, tr, prefix, usable, rows):
    rng = ctx.rng
    a, b = rng.choice(usable), rng.choice(usable)
    fa, fb = [f"{prefix}-{r}-{ty}.csv" for r, ty in (a, b)]
    da, db = [len(lines(f)[0].split(",")) // 2 for f in (fa, fb)]
    if da > db:
        a, b, fa, fb = b, a, fb, fa
    do_filter(ctx, tr, fa, fb, rows[a], rows[b])


def do_filter(ctx, tr, fa, fb, ra, rb):
    out = os.path.join(tr, "out.csv")
    err, _ = ctx.call(Traffic.filterTrace, fa, fb, out)
    got, keeps = [], False
    if not err:
        x = lines(out)
        keeps = x[:1] == lines(fa)[:1]
        got = parse(x[1:])
    ctx.emit(dict(op="filter", err=err, rows=ra, filter=rb, keeps=keeps, out=got))
    if os.path.exists(out):
        os.unlink(out)


def small(ctx):
    """Filtering and combining made-up traces."""
    rng = ctx.rng
    tr = fresh(ctx)
    n = rng.randint(1, 3)
    order = ["M", "K", "N"][:n]
    its = iterations(rng, n)
    many, drop = rng.choice([0, 0.3]), rng.choice([0, 0.3, 0.6])
    d = rng.randint(1, n)
    ra, rb = rows_of(rng, its[d], many, 4, drop), rows_of(rng, its[n], many, 4, drop)
    fa, fb = os.path.join(tr, "a.csv"), os.path.join(tr, "b.csv")
    open(fa, "w").write(text(order, d, ra))
    open(fb, "w").write(text(order, n, rb))
    do_filter(ctx, tr, fa, fb, ra, rb)
    rb = rows_of(rng, its[d], many, 4, drop)
    open(fb, "w").write(text(order, d, rb))
    args = {"read_fn": fa, "write_fn": fb}
    drop = rng.choice([None, None, None, "read_fn", "write_fn"])
    args.pop(drop, 0)
    out = os.path.join(tr, "out.csv")
    err, _ = ctx.call(lambda: Traffic._combineTraces(comb_fn=out, **args))
    got, keeps = [], False
    if not err:
        x = lines(out)
        keeps = x[:1] == [lines(fa)[0] + ",is_write"]
        for y in x[1:]:
            y, w = y.rsplit(",", 1)
            got.append(dict(row=parse([y])[0], w=w == "True"))
    ctx.emit(dict(op="combine", err=err, reads=ra if "read_fn" in args else [], writes=rb if "write_fn" in args else [], keeps=keeps, out=got))


def gen(ctx):
    for _ in range(ctx.share(6000, 60000)):
        synthetic(ctx)
    for _ in range(ctx.share(3000, 30000)):
        recorded(ctx)
    for _ in range(ctx.share(2500, 20000)):
        small(ctx)


if __name__ == "__main__":
    def mm(n, l, c, w, s, thorough):
        return dict(name=f"traffic-{n}{l}{c}{w}{s}", module="MC_Traffic", args=("-deadlock", "-workers", "2"), thorough_only=thorough, timeout=800,
                    cfg="INIT Init\nNEXT Next\nCONSTANTS N = %d L = %d C = %d Writes = %s Staging = %s\nINVARIANTS Optimal Bounds Fits Buffet MergeOk\n" % (n, l, c, w, s))
    vt.main("C17", gen, "Trace_C17", mc=[mm(5, 3, 3, "FALSE", "FALSE", False), mm(4, 2, 3, "TRUE", "TRUE", False), mm(6, 3, 3, "FALSE", "FALSE", True), mm(5, 2, 3, "TRUE", "TRUE", True)],
            rule="configurations of bindings, formats, line size and traces, all random")
