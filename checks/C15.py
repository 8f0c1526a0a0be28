"""C15: metrics collection is transparent, exact and session-isolated."""
import copy as copymod
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vt
from ft import Fiber, Tensor, Payload, CoordPayload, Metrics, enc
from fibertree.model import Compute
import kernel as K
import collect as C
import metapi
from C16 import rand_nest


class Stop(Exception):
    pass


def outcome(k, ts, z, log):
    root = z.getRoot()
    return dict(z=dict(t=enc(root), ids=[str(i) for i in z.getRankIds()], shape=str(z.getShape()),
                       ranks=[[enc(f) for f in r.getFibers()] for r in z.ranks]),
                ops=[dict(t=enc(t.getRoot()), shape=str(t.getShape())) for t in ts],
                did=dict(mul=log.mul, add=log.add, upd=log.upd), bodies=[log.bodies[r] for r in k.order])


QUERIES = [lambda f: str(f), lambda f: repr(f), lambda f: f.getShape(), lambda f: f.getShape(all_ranks=False), lambda f: f.estimateShape(),
           lambda f: f.countValues(), lambda f: f.isEmpty(), lambda f: f == f, lambda f: len(f), lambda f: f.getActive(), lambda f: f.getDepth(),
           lambda f: f.minCoord(), lambda f: f.maxCoord(), lambda f: f.nonEmpty(), lambda f: copymod.deepcopy(f), lambda f: f.uncompress(),
           lambda f: f.fiber2dict(), lambda f: f.getRankIds(), lambda f: f.getCoords(), lambda f: f.getPayload(0), lambda f: f[0] if len(f) else None,
           lambda f: f.copy(preserve_owner=False), lambda f: f.getDefault(), lambda f: f.print(), lambda f: f"{f:n*}", lambda f: f.countValues()]


def asking(k, ts, step):
    """Questions about fibers between the operations of the kernel."""
    rng = random.Random(k.seed)
    fs = [t.getRoot() for t in ts]

    def with_queries():
        step()
        f = rng.choice(fs)
        if rng.random() < 0.5:
            f = f.copy(preserve_owner=False)
        try:
            rng.choice(QUERIES)(f)
        except Exception:
            pass             # whether a question can be answered is another property
    return with_queries


def once(k, ts, box):
    def body(step):
        k.step = asking(k, ts, step) if ts and k.seed % 0.01 < 0.002 else step
        ops = ts or C.prepare(k, k.made)       # operands may be transformed during the session
        z = K.output(k)
        z2 = K.output(k) if k.second and k.out else None
        if k.zdense:
            for r in z.getRankIds():
                z.setFormat(r, "U")
        log = K.Log(k.order)
        box.update(outcome=None)
        K.execute(k, [t.getRoot() for t in ops], z.getRoot(), log, None, z2.getRoot() if z2 else None)
        box["outcome"] = outcome(k, ops, z, log)
        return z
    return body


def session(ctx, k, ts, traces, mem, cached, prefix):
    box = {}
    err, res = ctx.call(C.collect, prefix, traces, once(k, ts, box), mem, cached)
    if err:
        ctx.call(Metrics.endCollect)
        return dict(err=err)
    _, dump, files, got = res
    iters = [dict(d=k.order.index(r) + 1, n=Compute.numIters(f"{prefix}-{r}-iter.csv")) for r, ty in traces if ty == "iter"]
    err, rep = ctx.call(lambda: dict(mul=Compute.numOps(dump, "mul"), add=Compute.numOps(dump, "add"), upd=Compute.numOps(dump, "update")))
    if err:
        return dict(err="numOps-" + err)
    return dict(err="", rep=rep, iters=iters, dump=str(sorted((a, sorted(b.items())) for a, b in dump.items())),
                traces=[[r, ty, files[r, ty] or []] for r, ty in traces], mem=[[r, ty, got[r, ty]] for r, ty in mem], **box["outcome"])


HELD = []


def junk(ctx, rng, prefix, k, ts, traces):
    """A session of another kind, possibly broken off."""
    how = rng.choice(["full", "abort", "abort-end", "unconsumed", "suspended", "match", "api", "off", "same-abort"])
    if how == "api":
        for _ in range(1):
            metapi.history(rng, prefix, reset=False)
        return how
    k2 = k if how == "same-abort" and ts else rand_nest(rng, ("and", "lf", "or", "isect", "get"), 0.3)
    err, ts2 = (("", ts) if k2 is k else ctx.call(C.prepare, k2))
    if err:
        return how
    tr = C.trace_types(k2) + (traces if rng.random() < 0.5 else [])
    tr = sorted(set(rng.sample(tr, rng.randint(0, len(tr)))))
    mem = [t for t in tr if rng.random() < 0.3]
    left = [rng.randint(0, 8)]
    box = {}
    run = once(k2, ts2, box)

    def body(step):
        def broken():
            step()
            left[0] -= 1
            if left[0] < 0 and "abort" in how:
                raise Stop
        return run(broken)
    if how == "off":
        ctx.call(run, lambda: None)
    elif how == "suspended":
        Metrics.beginCollect(prefix)
        for t in tr:
            Metrics.trace(*t)
        f = ts2[0].getRoot()
        if isinstance(f, Fiber):
            g = iter(f & f) if rng.random() < 0.5 else iter(f)
            next(g, None)
            HELD[:] = [g]          # resumed by nobody; ends some time later
        if rng.random() < 0.5:
            ctx.call(Metrics.endCollect)
    elif how == "unconsumed":
        Metrics.beginCollect(prefix)
        for t in tr:
            Metrics.trace(*t, consumable=True)
        ctx.call(body, lambda: None)
        ctx.call(Metrics.endCollect)
    elif how == "match":
        Metrics.beginCollect(prefix)
        a, b = rng.choice(k.order), rng.choice(k.order + ["Q"])
        ctx.call(Metrics.matchRanks, a, b)
        Metrics.associateShape(a, (3, 3))
        if rng.random() < 0.5:
            ctx.call(Metrics.endCollect)
    else:
        ctx.call(C.collect, prefix, [t for t in tr if t not in mem], body, mem, rng.choice([2, 3, 7]), rng)
        if how in ("abort-end",):
            ctx.call(Metrics.endCollect)
    return how


def leads(k, r):
    parts = [i + 1 for i, vs in enumerate(k.ops) if k.var(r) in vs]
    return parts[:1] if k.style[r] in ("lf", "get") else parts


def order(k):
    res = []
    for r in k.order:
        v = k.var(r)
        ts = k.tiles.get(v, ())
        lo = not ts or r.endswith("0")
        d = 0 if lo else K.tile_ranks(v, ts).index(r)
        res.append(dict(v=v, s=0 if not ts else (ts[-1] if lo else ts[d]), lo=lo))
    return res


def kernel(ctx, k):
    rng = random.Random(k.seed)
    err, ts = ctx.call(C.prepare, k)
    if err:
        ctx.notes["operand-" + err] += 1
        return
    if rng.random() < 0.2:
        err, k.made = ctx.call(C.build, k)
        ts = None
    prefix = os.path.join(ctx.scratch, "s")
    every = C.trace_types(k)
    C.remove(prefix, every)
    traces = every if rng.random() < 0.4 else sorted(rng.sample(every, rng.randint(0, len(every))))
    if rng.random() < 0.6:
        traces = sorted(set(traces) | {(r, "iter") for r in k.order if rng.random() < 0.8})
    mem = [t for t in traces if rng.random() < 0.2]
    C.reset()
    box = {}
    offerr, _ = ctx.call(once(k, ts, box), lambda: None)
    on = []
    hist = []
    if not offerr:
        # on the same operands, in a fresh collector; then after whatever other sessions
        on.append(session(ctx, k, ts, traces, mem, 1000, prefix))
        for _ in range(rng.randint(1, 2)):
            for _ in range(rng.randint(1, 3)):
                hist.append(junk(ctx, rng, prefix, k, ts, every))
            on.append(session(ctx, k, ts, traces, mem, rng.choice([2, 3, 10, 1000]), prefix))
        C.reset()
    simple = not k.proj and not k.second and not k.dense and all(k.style[r] in ("and", "isect", "lf", "get") for r in k.order)
    ctx.emit(dict(op="kernel", offerr=offerr, off=box.get("outcome") or {}, on=on, model=simple, ops=K.spec_ops(k), out=k.out,
                  order=order(k), leads=[leads(k, r) for r in k.order], body=k.body, filt=k.filt, hist=hist,
                  info=dict(order=k.order, style=[[r, k.style[r]] for r in k.order], traces=traces, refs=sorted(k.refs))),
             key=k.key() + (k.body, k.filt, str(k.proj), k.second, k.dense))


def arith(ctx):
    """Operations on payloads and elements, some of them outside the session."""
    rng = ctx.rng
    C.reset()

    def box(v):
        return CoordPayload(0, v) if rng.random() < 0.3 else Payload(v)
    cells = [box(rng.randint(-2, 3)) for _ in range(3)]
    ops = []
    span = sorted(rng.sample(range(14), 2))

    def num(x):
        x = x.payload if isinstance(x, CoordPayload) else x
        return int(Payload.get(x))
    for t in range(14):
        if t == span[0]:
            Metrics.beginCollect()
        i = rng.randrange(3)
        a = cells[i]
        b = rng.choice([cells[rng.randrange(3)], rng.randint(-2, 2)])
        k = rng.choice(["add", "radd", "iadd", "iadd", "mul", "rmul", "imul", "assign", "neq", "lt"])
        if k in ("radd", "rmul"):
            b = rng.randint(-2, 2)
        old, arg = num(a), num(b) if not isinstance(b, int) else b
        if abs(old) > 10000:
            k, arg, b = "assign", 1, 1
        if k == "add":
            res = num(a + b)
        elif k == "radd":
            res = num(b + a)
        elif k == "mul":
            res = num(a * b)
        elif k == "rmul":
            res = num(b * a)
        elif k == "iadd":
            a += b
            res = num(a)
        elif k == "imul":
            a *= b
            res = num(a)
        elif k == "assign":
            a <<= b
            res = num(a)
        elif k == "neq":
            res = int(bool(a != b))
        else:
            res = int(bool(a < b))
        cells[i] = a
        ops.append(dict(k=k, old=old, arg=arg, res=res, on=span[0] <= t < span[1]))
        if t == span[1] - 1:
            Metrics.endCollect()
    d = Metrics.dump()
    ctx.emit(dict(op="arith", ops=ops, rep=dict(mul=Compute.numOps(d, "mul"), add=Compute.numOps(d, "add"), upd=Compute.numOps(d, "update"))))
    C.reset()


def isolated(ctx):
    """The same calls in a fresh collector and after other sessions: the same answers."""
    rng = ctx.rng
    seed = rng.random()
    prefix = os.path.join(ctx.scratch, "i")
    out = []
    C.reset()
    for i in range(2):
        if i:
            metapi.history(rng, prefix, reset=False, loose=True)
            if rng.random() < 0.5:
                ctx.call(Metrics.endCollect)
        for f in os.listdir(ctx.scratch):
            if f.startswith("i-"):
                os.unlink(os.path.join(ctx.scratch, f))
        r = random.Random(seed)
        Metrics.setNumCachedUses(1000)
        try:
            out.append(metapi.history(r, prefix, sessions=1, reset=False, loose=True))
        except Exception as e:
            out.append([dict(op="?", out=type(e).__name__)])
    C.reset()
    ctx.emit(dict(op="isolated", a=out[0], b=out[1]))


def gen(ctx):
    rng = ctx.rng
    C.reset()
    for _ in range(ctx.share(2500, 25000)):
        k = rand_nest(rng, ("and", "and", "isect", "lf", "get"))
        k.body = rng.choice(["acc", "acc", "set", "scale", "temp"])
        kernel(ctx, k)
    for _ in range(ctx.share(1000, 10000)):
        k = rand_nest(rng, ("and", "isect", "lf", "or", "union", "get"), 0.5)
        k.body = rng.choice(["acc", "set", "scale", "temp"])
        kernel(ctx, k)
    for _ in range(ctx.share(3000, 20000)):
        arith(ctx)
    for _ in range(ctx.share(600, 6000)):
        isolated(ctx)
    for _ in range(ctx.share(1500, 15000)):
        C.reset()
        ctx.emit(dict(op="api", cap=1000, ops=metapi.history(rng, os.path.join(ctx.scratch, "a"))))


if __name__ == "__main__":
    def mm(body, sess, use, every, thorough):
        return dict(name=f"metrics-{body}{sess}{use}{every}", module="MC_Metrics", args=("-deadlock", "-workers", "3"), thorough_only=thorough, timeout=700,
                    cfg="INIT Init\nNEXT Next\nCONSTANTS MaxBody = %d MaxSess = %d MaxUse = %d AllTraces = %s\n"
                        "INVARIANTS FileComplete MemComplete Bounded Ordered Flushed\nPROPERTY Fresh\n" % (body, sess, use, every))
    vt.main("C15", gen, "Trace_C15", mc=[mm(1, 2, 1, "FALSE", False), mm(1, 2, 1, "TRUE", True), mm(2, 2, 1, "FALSE", True)], rule="kernels distinct by expression, loop order, tiles, styles, body and operand contents")
