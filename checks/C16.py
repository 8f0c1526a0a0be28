"""C16: traces are well-formed."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vt
from ft import Fiber, Tensor, Payload, Metrics, enc
import kernel as K
import collect as C
import metapi


def parse(lines, L):
    """Lines -> header fields, rows."""
    if not lines:
        return [], []
    rows = []
    for x in lines[1:]:
        v = [int(float(y)) for y in x.split(",")]
        rows.append({"st": v[:L], "co": v[L:-1], "pos": v[-1]})
    return lines[0].split(","), rows


def loops_to(k, rank):
    for (i, r), p in getattr(k, "proj", {}).items():
        if p[3] == rank:
            rank = r
    return k.order[:k.order.index(rank) + 1]


def run(ctx, k, traces):
    rng = random.Random(k.seed)
    err, ts = ctx.call(C.prepare, k)
    if err:
        ctx.notes["operand-" + err] += 1
        return
    z0 = None

    def once(hooks):
        def body(step):
            k.step = step
            z = K.output(k)
            z2 = K.output(k) if k.second and k.out else None
            for r in z.getRankIds():
                if k.zdense:
                    z.setFormat(r, "U")
            K.execute(k, [t.getRoot() for t in ts], z.getRoot(), K.Log(k.order), hooks, z2.getRoot() if z2 else None)
            return z
        return body
    prefix = os.path.join(ctx.scratch, "t")
    C.remove(prefix, traces)
    hooks = K.Hooks()
    mem = [t for t in traces if rng.random() < 0.3]
    err, res = ctx.call(C.collect, prefix, traces, once(hooks), mem, 1000, rng)
    if err:
        ctx.call(Metrics.endCollect)
        C.reset()
        ctx.emit(dict(op="nest", err=err, insts=hooks.insts, traces=[], info=info(k)), key=k.key())
        return
    _, _, fs, got = res
    alts = {t: [] for t in traces}
    for cached in rng.sample([2, 3, 4, 5, 7, 12], 2):
        err, res2 = ctx.call(C.collect, prefix, traces, once(None), [t for t in traces if rng.random() < 0.2], cached, rng)
        if err:
            ctx.call(Metrics.endCollect)
            C.reset()
            ctx.emit(dict(op="nest", err="again-" + err, insts=[], traces=[], info=info(k)), key=k.key())
            return
        for t in traces:
            if res2[2][t] != fs[t]:
                alts[t].append(res2[2][t] or [])
        for t, v in res2[3].items():
            if v != (fs[t] or []):
                alts[t].append(v)
    tr = []
    for rank, ty in traces:
        loops = loops_to(k, rank)
        h, rows = parse(fs[rank, ty], len(loops))
        mm = [got[rank, ty]] if (rank, ty) in got and got[rank, ty] != (fs[rank, ty] or []) else []
        tr.append(dict(k=rank, ty=ty, loops=loops, header=h, rows=rows, raw=(fs[rank, ty] or []) if mm or alts[rank, ty] else [],
                       alts=alts[rank, ty], mem=mm))
    ctx.emit(dict(op="nest", err="", insts=hooks.insts, traces=tr, info=info(k)), key=k.key())


def info(k):
    return dict(order=k.order, style=[[r, k.style[r]] for r in k.order], build=k.build, ops=K.spec_ops(k), out=k.out,
                proj=[[i, r, str(p)] for (i, r), p in getattr(k, "proj", {}).items()])


def rand_nest(rng, styles, proj=0.0, maxshape=4):
    k = K.rand_kernel(rng, styles=styles, maxshape=maxshape, tile=rng.random() < 0.4, rel=False)
    k.second = rng.random() < 0.2
    k.proj = {}
    k.zshape = rng.random() < 0.7
    k.untile = False
    k.refs = {r for r in k.order if k.var(r) in k.out and rng.random() < 0.2}
    k.zdense = rng.random() < 0.15
    k.dense = rng.choice([0, 0, 0.3])
    if rng.random() < proj:
        r = rng.choice(k.order)
        if "." not in r:
            i = rng.choice([i for i, vs in enumerate(k.ops) if r in vs])
            a, b = rng.choice([(1, 0), (1, 1), (1, 2), (1, -1), (-1, k.shape[r] - 1), (2, 0)])
            lo = rng.randint(-1, k.shape[r])
            if k.style[r] in ("lf", "get") and i != [j for j, vs in enumerate(k.ops) if r in vs][0]:
                k.style[r] = "and"     # followers are stored fibers
            d = k.order.index(r)
            if d and rng.random() < 0.5:       # a convolution: the window moves with an outer loop
                b = (b, rng.choice([1, -1, 2]), rng.randrange(d))
            k.proj[i, r] = (a, b, None if rng.random() < 0.5 else (lo, lo + rng.randint(0, k.shape[r])), "W" + r)
    return k


def eager(ctx):
    """Fiber.trace() from the root, with other ranks in the loop order."""
    rng = ctx.rng
    n = rng.randint(1, 3)
    ids = ["K", "M", "N"][:n]
    sh = {r: rng.randint(1, 4) for r in ids}
    loops = list(ids)
    for x in "XY":
        if rng.random() < 0.4:
            loops.insert(rng.randint(0, len(loops)), x)
    t = Tensor.fromFiber(rank_ids=ids, fiber=K.fib(K.tree(ids, K.rand_vals(rng, ids, sh), sh, rng), sh, ids), shape=[sh[r] for r in ids])
    for r in ids:
        if rng.random() < 0.15:
            t.setFormat(r, "U")

    def tree(f):
        res = []
        for x in K.src(f)["e"]:
            p = f.getPayload(x["c"])
            res.append(dict(c=x["c"], i=x["i"], n=x["n"], k=tree(p) if isinstance(p, Fiber) and x["n"] else []))
        return res
    prefix = os.path.join(ctx.scratch, "e")
    traces = [(r, "A") for r in ids]
    C.remove(prefix, traces)
    tr = tree(t.getRoot())

    def body(step):
        for r in loops:
            Metrics.registerRank(r)
        t.getRoot().trace("A")
    err, res = ctx.call(C.collect, prefix, traces, body, [], rng.choice([2, 3, 5, 1000]), rng)
    ts = []
    if err:
        ctx.call(Metrics.endCollect)
        C.reset()
    else:
        at = [loops.index(r) + 1 for r in ids]
        for r in ids:
            h, rows = parse(res[2][r, "A"], loops.index(r) + 1)
            ts.append(dict(header=h, rows=rows, at=at))
    ctx.emit(dict(op="eager", err=err, loops=loops, tree=tr, traces=ts), key=(str(loops), str(tr)))


def rand_mode(rng, f):
    """A way to traverse f: [x, lo, hi, st, sp]."""
    sh = f.getShape(all_ranks=False)
    x = rng.choice(["default", "occ", "occ", "range", "range", "active", "shape", "ashape", "rshape", "shaperef", "ashaperef", "rshaperef"])
    m = dict(x=x, lo=0, hi=sh, st=1, sp=-1)
    if x in ("active", "ashape", "ashaperef"):
        m["lo"], m["hi"] = f.getActive()
    elif x in ("range", "rshape", "rshaperef"):
        m["lo"] = rng.randint(0, sh)
        m["hi"] = rng.randint(m["lo"], sh)
        if x != "range" and rng.random() < 0.5:
            m["st"] = rng.choice([2, 3])
    if x in ("occ", "range", "active") and rng.random() < 0.5:
        # positions no presented element lies before
        ok = 0
        while ok + 1 < len(f) and (Payload.isEmpty(f.payloads[ok], default=f.getDefault()) or f.coords[ok] < m["lo"]):
            ok += 1
        if len(f):
            m["sp"] = rng.randint(0, ok)
    return m


def start(f, m):
    kw = dict(start_pos=m["sp"]) if m["sp"] >= 0 else {}
    x = m["x"]
    return iter(f) if x == "default" else \
        f.iterOccupancy(**kw) if x == "occ" else f.iterRange(m["lo"], m["hi"], **kw) if x == "range" else f.iterActive(**kw) if x == "active" else \
        f.iterShape() if x == "shape" else f.iterActiveShape() if x == "ashape" else f.iterRangeShape(m["lo"], m["hi"], m["st"]) if x == "rshape" else \
        f.iterShapeRef() if x == "shaperef" else f.iterActiveShapeRef() if x == "ashaperef" else f.iterRangeShapeRef(m["lo"], m["hi"], m["st"])


def trav(ctx):
    """Loops over the ranks of one tensor, each traversed in some mode (and inspected without a trace in between)."""
    rng = ctx.rng
    n = rng.randint(1, 3)
    ids = ["K", "M", "N"][:n]
    sh = {r: rng.randint(1, 12 if n == 1 else 5) for r in ids}
    t = Tensor.fromFiber(rank_ids=ids, fiber=K.fib(K.tree(ids, K.rand_vals(rng, ids, sh), sh, rng), sh, ids), shape=[sh[r] for r in ids])
    same = None if rng.random() < 0.5 else [rand_mode(rng, t.getRoot())["x"] for _ in ids]
    seed = rng.randrange(1 << 30)
    peek = rng.random() < 0.3
    insts = []

    def walk(f, d, pre, r2, step):
        m = rand_mode(r2, f)
        if same and m["x"] != same[d] and m["sp"] < 0:
            for _ in range(30):
                if m["x"] == same[d]:
                    break
                m = rand_mode(r2, f)
        insts.append(dict(r=ids[d], pre=list(pre), m=m, e=[dict(c=c, n=not Payload.isEmpty(p, default=f.getDefault())) for c, p in zip(f.coords, f.payloads)]))
        for c, p in start(f, m):
            if peek and r2.random() < 0.3:      # looking at fibers in the body is not a loop
                len([x for x in f.iterOccupancy(tick=False)])
            if d + 1 < n:
                walk(p, d + 1, pre + [c], r2, step)
            else:
                step()
    prefix = os.path.join(ctx.scratch, "w")
    traces = [(r, "iter") for r in ids if rng.random() < 0.8] or [(ids[-1], "iter")]
    C.remove(prefix, traces)
    mem = [x for x in traces if rng.random() < 0.4]
    err, res = ctx.call(C.collect, prefix, traces, lambda step: walk(t.getRoot(), 0, [], random.Random(seed), step), mem, rng.choice([2, 3, 5, 1000]), rng)
    ts = []
    if err:
        ctx.call(Metrics.endCollect)
        C.reset()
    else:
        for x in traces:
            h, rows = parse(res[2][x], ids.index(x[0]) + 1)
            ts.append(dict(k=x[0], loops=ids[:ids.index(x[0]) + 1], ty="iter", header=h, rows=rows,
                           raw=res[2][x] or [], mem=[res[3][x]] if x in mem else []))
    ctx.emit(dict(op="trav", err=err, insts=insts, traces=ts), key=(str(insts),))


def gen(ctx):
    rng = ctx.rng
    C.reset()
    for _ in range(ctx.share(1500, 15000)):
        trav(ctx)
    st = ("and", "and", "isect", "lf", "or", "union", "get")
    for _ in range(ctx.share(3000, 40000)):
        k = rand_nest(rng, st)
        run(ctx, k, C.trace_types(k))
    for _ in range(ctx.share(1500, 15000)):
        k = rand_nest(rng, st, 1.0)
        run(ctx, k, C.trace_types(k))
    for _ in range(ctx.share(800, 8000)):
        eager(ctx)
    for _ in range(ctx.share(1500, 15000)):
        ctx.emit(dict(op="api", cap=1000, ops=metapi.history(rng, os.path.join(ctx.scratch, "a"))))
    C.reset()


if __name__ == "__main__":
    def mm(body, sess, use, every, thorough):
        return dict(name=f"metrics-{body}{sess}{use}{every}", module="MC_Metrics", args=("-deadlock", "-workers", "3"), thorough_only=thorough, timeout=700,
                    cfg="INIT Init\nNEXT Next\nCONSTANTS MaxBody = %d MaxSess = %d MaxUse = %d AllTraces = %s\n"
                        "INVARIANTS FileComplete MemComplete Bounded Ordered Flushed\nPROPERTY Fresh\n" % (body, sess, use, every))
    vt.main("C16", gen, "Trace_C16",
            mc=[mm(2, 1, 1, "TRUE", False), mm(1, 2, 1, "FALSE", False), mm(2, 2, 1, "FALSE", True), mm(2, 1, 2, "FALSE", True)] +
               [dict(name=f"access-{n}", module="MC_Access", args=("-deadlock", "-workers", "2"), thorough_only=n > 4, cfg="INIT Init\nNEXT Next\nCONSTANT N = %d\nINVARIANTS Delivers Touches Lazy\n" % n) for n in (4, 5)],
            rule="loop nests distinct by expression, loop order, tiles, styles and operand contents")
