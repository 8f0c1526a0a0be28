"""C02: a tensor's rank bookkeeping mirrors its fibertree."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vt
import machine
from machine import *
import xform
from xform import tinfo, chains, rand_tensor, rid
from fibertree.model import Format


def derived(ctx, T):
    """Quantities computed from the rank lists."""
    ids = Ids()
    if not isinstance(root_of(T), Fiber):
        return
    names = T.getRankIds()
    plain = all(isinstance(n, str) for n in names) and len(set(names)) == len(names)

    def live(f, out, d=0):
        if d > 12:
            return out
        out.append(f)
        for p in f.payloads:
            q = Payload.get(p)
            if isinstance(q, Fiber):
                live(q, out, d + 1)
        return out
    fs = live(root_of(T), [])
    for f in fs:                       # leave a statistic in every fiber
        if len(f.coords) > 0 and not isinstance(f.coords[0], tuple):
            try:
                f.setSavedPos(0)
                f.getPayload(f.coords[-1], start_pos=0)
                f.setSavedPos(len(f.coords) - 1, distance=1)
            except Exception:
                ctx.notes["savedpos-refused"] += 1
    before = sum(f.getSavedPosStats(clear=False)[0] for f in fs)
    ctx.notes["fibers-with-stats"] += before > 0
    err, _ = ctx.call(T.clearStats)
    stats = [f.getSavedPosStats(clear=False)[0] for f in fs]
    printed, foot, used = [], [], []
    for i, n in enumerate(names):
        if not plain:
            break
        used.append(i)
        e1, s = ctx.call(lambda: str(T.ranks[i]))
        printed.append(s.count("F(%s)/[" % n) if not e1 else -1)
        e2, k = ctx.call(lambda: Format(T, {n: dict(fhbits=1)}).getRank(n))
        foot.append(k if not e2 else -1)
    ctx.emit(dict(op="derived", post=enc(root_of(T), ids), stats=stats, printed=printed, foot=foot, err=err,
                  ranks=len(names)), key=("derived", repr(enc(root_of(T)))))


def world(T, d):
    """A mutation history continued on an existing tensor."""
    w = World.__new__(World)
    w.D, w.d, w.ids, w.T = len(T.ranks), list(val(d)), Ids(), T
    w.refs, w.fibs, w.y, w.src = [], [], [], None
    return w


def mutate(ctx, T, d, num=5):
    w = world(T, d)
    if w.D == 0 or any(isinstance(c, tuple) for f in fibs(T) for c in f.coords):
        return
    emit_start(ctx, w, -1)
    for _ in range(num):
        try:
            op = wild_op(ctx.rng, w, 4)
        except (AttributeError, TypeError, ValueError, IndexError, KeyError):
            break
        if op is not None:
            step(ctx, w, op, exact=False, hid=-1)
            if len(repr(enc(w.root()))) > 12000:
                break
    T2 = w.T
    if ctx.rng.random() < 0.5:
        derived(ctx, T2)


def fibs(T):
    for r in T.ranks:
        yield from r.getFibers()


def binfo(x, ids):
    r = root_of(x)
    return dict(tree=enc(r, ids), book=book(x, ids))


def gen(ctx):
    rng = ctx.rng
    hs = spec_histories(ctx, 30 if not ctx.thorough else 500, 12)
    replay_spec(ctx, hs)
    wild_histories(ctx, ctx.share(1200, 6000), 12)
    # constructors and transforms, then mutations of both sides
    made = []

    def emit(t, op, ids, pre, post, R, res, err, kind):
        other = getattr(xform.TT, "other", None)
        others = []
        if kind == "mid" and other is not None:
            others.append(binfo(other, ids))
        ctx.emit(dict(op="xform", a=dict(o=op["o"], op=op), kind=kind, err=err,
                      pre=dict(tree=pre["tree"], book=pre["book"], k=pre["k"]),
                      post=dict(tree=post["tree"], book=post["book"], k=post["k"]),
                      res=dict(tree=res["tree"], book=res["book"], k=res["k"]), others=others),
                 key=(repr(op), repr(enc(root_of(t.T)))) if pre["tree"]["c"] else None)
        if isinstance(R, Tensor) and rng.random() < 0.25:
            made.append((R, t.d))
        if rng.random() < 0.06:
            made.append((t.T, t.d))
    for _ in range(ctx.share(400, 2000)):
        made.clear()
        chains(ctx, 1, rng.randint(1, 4), emit)
        for T, d in made:
            derived(ctx, T)
            mutate(ctx, T, d)


DESIGN = """SPECIFICATION Spec
CONSTANTS
 Fibers = {%s}
 Depth = %d
INVARIANTS ListsMirrorTree FreeNowhere
CHECK_DEADLOCK FALSE
"""

if __name__ == "__main__":
    vt.main("C02", gen, "Trace_C02", history=True,
            mc=[dict(name="ranks-3x5", module="MC_Ranks", cfg=DESIGN % ("f1,f2,f3,f4,f5", 3)),
                dict(name="ranks-4x7", module="MC_Ranks", cfg=DESIGN % ("f1,f2,f3,f4,f5,f6,f7", 4), thorough_only=True,
                     args=("-workers", "4"), timeout=800)] + MC_MACHINE[:1],
            rule="mutations and transforms applied to real tensors; non-trivial when the tree was not empty before; distinct by operation and tree")
