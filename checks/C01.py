"""C01: fibertrees stay well-formed."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vt
import machine
from machine import *


def constructors(ctx):
    """Everything that makes a fiber out of user data."""
    rng = ctx.rng

    def ev(kind, fn, D, d, legal=True, what=None):
        err, r = ctx.call(fn)
        if isinstance(r, Tensor):
            r = r.getRoot()
        ctx.emit(dict(op="construct", a=dict(o=kind, what=what), D=D, d=list(d), err=err, legal=legal,
                      pre=node("F"), post=enc(r) if r is not None else node("F"), src=[]), key=(kind, repr(what)))
    for _ in range(ctx.share(1600)):
        n = rng.randint(0, 5)
        cs = [rng.randint(0, 5) for _ in range(n)]
        if rng.random() < 0.5:
            cs.sort()
        ps = [rng.randint(0, 3) for _ in cs]
        ok = all(a < b for a, b in zip(cs, cs[1:]))
        what = [cs, ps]
        k = rng.randrange(10)
        box = rng.random() < 0.4
        vals = [Payload(p) for p in ps] if box else ps
        if k == 0:
            ev("Fiber", lambda: Fiber(list(cs), list(vals)), 1, [0, 1], ok, what)
        elif k == 1:
            ev("Fiber-initial", lambda: Fiber(list(cs), initial=rng.choice([1, Payload(2)])), 1, [0, 1], ok, what)
        elif k == 2:
            ev("fromCoordPayloadList", lambda: Fiber.fromCoordPayloadList(list(zip(cs, vals))), 1, [0, 1],
               ok and bool(cs), what)
        elif k == 9:
            ev("Fiber-dense", lambda: Fiber(payloads=list(vals)), 1, [0, 1], True, what)
        elif k == 3:
            t = rtree(rng, 2, 3, [0, 1])
            ev("Fiber2", lambda: mk(t, [0, 1]), 2 if depth_of(t, 0) else 0, [0, 1], True, t)
        elif k == 4:
            nest = [[rng.choice((0, 0, 1, 2)) for _ in range(3)] for _ in range(rng.randint(1, 3))]
            ev("fromUncompressed", lambda: Fiber.fromUncompressed(nest), 0, [0, 1], True, nest)
        elif k == 5:
            nest = [[rng.choice((0, 0, 1, 2)) for _ in range(3)] for _ in range(rng.randint(1, 3))]
            ev("T.fromUncompressed", lambda: Tensor.fromUncompressed(["M", "K"], nest), 2, [0, 1], True, nest)
        elif k == 6:
            sh = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
            de = [rng.choice((0.0, 0.3, 0.7, 1.0))] * len(sh)
            ev("fromRandom", lambda: Fiber.fromRandom(sh, de, seed=rng.randint(0, 99)), 0, [0, 1], True, [sh, de])
        elif k == 7:
            a = mk(rtree(rng, 1, 5, [0, 1]), [0, 1])
            b = mk(rtree(rng, 1, 5, [0, 1]), [0, 1])
            x = rng.choice(["project", "prune", "rev"])
            f = {"project": lambda: a.project(lambda c: c + 2),
                 "rev": lambda: a.project(lambda c: 9 - c),
                 "prune": lambda: a.prune(lambda i, c, p: c % 2 == 0)}[x]
            ev("fromLazy-" + x, lambda: Fiber.fromLazy(f()), 1, [0, 1], True, [enc(a), enc(b)])
        else:
            t = rtree(rng, 3, 3, [0, 1])
            ev("copy", lambda: mk(t, [0, 1]).copy(), 0, [0, 1], True, t)


def gen(ctx):
    quick = not ctx.thorough
    hs = spec_histories(ctx, 60 if quick else 600, 12)
    replay_spec(ctx, hs)
    hs = spec_histories(ctx, 25 if quick else 250, 12, nc=6)
    replay_spec(ctx, hs)
    wild_histories(ctx, ctx.share(1200, 6000), 12)
    constructors(ctx)


if __name__ == "__main__":
    vt.main("C01", gen, "Trace_C01", history=True, mc=MC_MACHINE,
            rule="operations applied to real fibers/tensors; non-trivial when the tree was not empty before; distinct by operation and tree")
