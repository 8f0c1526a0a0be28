"""C06: kernel results do not depend on the dataflow."""
import copy as copymod
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vt
from ft import Fiber, Tensor, Payload, enc
import kernel as K


def info(k):
    return dict(order=k.order, tiles=[[v, list(s)] for v, s in sorted(k.tiles.items())], rel=sorted(k.rel),
                style=[[r, k.style[r]] for r in k.order], build=k.build, filt=k.filt)


def emit(ctx, k, ops, z, err, how):
    ids = z.getRankIds() if z is not None and err == "" else []
    root = z.getRoot() if z is not None and err == "" else None
    ctx.emit(dict(op="kernel", how=how, ops=K.spec_ops(k), out=list(k.out), err=err, info=info(k), ids=[str(i) for i in ids],
                  trees=[enc(t.getRoot()) for t in ops], z=enc(root), depth=len(ids),
                  map=K.zmap(k, [str(i) for i in ids]) if how != "untiled" else
                  [{"r": [i + 1], "rel": False, "s": 0} for i in range(len(k.out))]), key=k.key() + (how,))


def run(ctx, k, ops=None, fmt=None):
    import random
    rng = random.Random(k.seed)
    err, made = ctx.call(lambda: [K.operand(k, i, rng) for i in range(len(k.ops))])
    if err:
        ctx.notes["operand-" + err] += 1
        return
    box = {}

    def go():
        ts = [K.dataflow(k, t, vs) for t, vs in zip(made, k.ops)]
        if fmt:
            for t in ts:
                for r in t.getRankIds():
                    if rng.random() < fmt:
                        t.setFormat(r, "U")
        z = K.output(k)
        K.execute(k, [t.getRoot() for t in ts], z.getRoot(), K.Log(k.order))
        box["ts"] = ts
        return z
    err, z = ctx.call(go)
    emit(ctx, k, made, z, err, "raw")
    if err:
        return
    if k.untile:
        err, u = ctx.call(lambda: K.untile(k, z))
        emit(ctx, k, made, u, err, "untiled")
    if rng.random() < 0.25:
        # once more on the very same operands: nothing may be left over from the first run
        def again():
            z = K.output(k)
            K.execute(k, [t.getRoot() for t in box["ts"]], z.getRoot(), K.Log(k.order))
            return z
        err, z = ctx.call(again)
        emit(ctx, k, made, z, err, "again")


def small(ctx):
    """Every operand of the smallest einsums, on every loop order and tiling."""
    rng = ctx.rng
    forms = [([["K"], ["K"]], []), ([["M"], ["M"]], ["M"]), ([["M", "K"]], ["M"]), ([["M"], ["N"]], ["N", "M"])]
    big = [([["M", "K"], ["K"]], ["M"]), ([["M", "K"], ["K", "N"]], ["M", "N"]), ([["K"], ["K"], ["K"]], [])]
    for ops, out in forms + (big if ctx.thorough else []):
        vs = sorted({x for o in ops for x in o})
        shape = {v: 2 for v in vs}
        spaces = []
        for o in ops:
            pts = list(itertools.product(*[range(2)] * len(o)))
            vals = (0, 1, -1) if len(pts) * len(ops) <= 6 else (0, 1)
            spaces.append([{p: x for p, x in zip(pts, xs) if x} for xs in itertools.product(vals, repeat=len(pts))])
        for tl in itertools.product(((), (1,), (2,)), repeat=len(vs)):
            tiles = {v: t for v, t in zip(vs, tl) if t}
            for order in K.orders(tiles, vs):
                for vals in itertools.product(*spaces):
                    if not ctx.mine():
                        continue
                    if len(ops) * len(vs) > 2 and rng.random() > (0.25 if ctx.thorough else 0.2):
                        continue
                    k = K.Kern(ops=ops, out=out, shape=shape, vals=list(vals), tiles=tiles, rel=set(), order=order,
                               style={r: rng.choice(("and", "isect", "lf")) for r in order}, build=[rng.choice(("nest", "fiber")) for _ in ops],
                               junk=[rng.random() < 0.5 for _ in ops], split_first=True, filt=rng.random() < 0.5, zshape=True, untile=False,
                               seed=rng.random())
                    run(ctx, k)


def gen(ctx):
    rng = ctx.rng
    small(ctx)
    for _ in range(ctx.share(6000, 60000)):
        run(ctx, K.rand_kernel(rng))
    # the same computation on every loop order
    for _ in range(ctx.share(60, 600)):
        k = K.rand_kernel(rng)
        vs = sorted(k.shape)
        os_ = K.orders(k.tiles, vs)
        for o in os_ if len(os_) <= 30 else rng.sample(os_, 30):
            k2 = copymod.copy(k)
            k2.order = o
            k2.style = {r: k.style.get(r, "and") for r in o}
            run(ctx, k2)
    # larger coordinates, denser and sparser operands
    for _ in range(ctx.share(600, 6000)):
        run(ctx, K.rand_kernel(rng, maxshape=8))
    # a long rank with runs of elements, absences and explicit zeros
    for _ in range(ctx.share(700, 7000)):
        k = K.rand_kernel(rng, maxshape=3, runs=True)
        if rng.random() < 0.7:
            k.build, k.junk = ["fiber"] * len(k.ops), [True] * len(k.ops)
        run(ctx, k)
    # two operands meeting on one long rank
    for _ in range(ctx.share(1500, 15000)):
        form = rng.choice([([["K"], ["K"]], []), ([["M"], ["M"]], ["M"]), ([["K"], ["K"], ["K"]], []), ([["M", "K"], ["K"]], ["M"]),
                           ([["M", "K"], ["K"]], ["K"])])
        k = K.rand_kernel(rng, tile=rng.random() < 0.3, maxshape=2, runs=True, form=form)
        k.build, k.junk = ["fiber"] * len(k.ops), [rng.random() < 0.85 for _ in k.ops]
        run(ctx, k)
    # operands held uncompressed
    for _ in range(ctx.share(600, 6000)):
        run(ctx, K.rand_kernel(rng, styles=("and", "isect")), fmt=0.5)


if __name__ == "__main__":
    vt.main("C06", gen, "Trace_C06",
            mc=[dict(name="kernel-" + f, module="MC_Kernel", args=("-deadlock", "-workers", "2"), thorough_only=t, timeout=700,
                     cfg="SPECIFICATION Spec\nCONSTANTS Form = \"%s\"\n Sizes = {%s}\n Styles = {\"and\", \"lf\"}\nINVARIANTS Dense Clean Shape Counted\nPROPERTY Terminates\n" % (f, s))
                for f, s, t in (("dot", "0, 1, 2", False), ("elem", "0, 1, 2", False), ("reduce", "0, 1, 2", False), ("outer", "0, 1, 2", False),
                                ("tri", "0, 1, 2", False), ("matvec", "0, 1, 2", True), ("matmul", "0, 1", True))],
            rule="kernels distinct by expression, loop order, tiles, styles and operand contents",
            assumptions=["operand values are small integers, so that sums do not overflow TLC's arithmetic"])
