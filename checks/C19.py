"""C19: intersection and merge cost models."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vt
from ft import Fiber, Tensor, Payload, Metrics, enc
from fibertree.model import Compute, LeaderFollowerIntersector, SkipAheadIntersector, TwoFingerIntersector
import kernel as K
import collect as C


def a_fiber(rng, cs, rank, n, junk, uncomp=False, tup=False):
    """A fiber with exactly these coordinates non-empty, and maybe stored zeros."""
    cs = set(cs)
    extra = {c for c in range(n) if c not in cs and rng.random() < junk}
    ks = sorted(cs | extra)
    f = Fiber([(c // 3, c % 3) for c in ks] if tup else ks, [rng.choice([1, 2, -1]) if c in cs else 0 for c in ks],
              shape=((n + 2) // 3, 3) if tup else n)
    f.getRankAttrs().setId(rank)
    if uncomp:
        f.getRankAttrs().setFormat("U")
    return f


def lists(rng, n):
    """Two coordinate lists with runs, gaps, matches; sometimes one or both empty."""
    k = rng.random()
    if k < 0.08:
        A, B = [], [c for c in range(n) if rng.random() < 0.5]
    elif k < 0.2:      # runs
        A, B, side = [], [], 0
        for c in range(n):
            if rng.random() < 0.35:
                side = rng.randrange(4)
            if side in (0, 2):
                A.append(c)
            if side in (1, 2):
                B.append(c)
    elif k < 0.3:      # disjoint ranges
        m = rng.randint(0, n)
        A, B = list(range(m)), list(range(m, n))
    elif k < 0.4:      # the same
        A = [c for c in range(n) if rng.random() < 0.5]
        B = list(A)
    else:
        p, q = rng.choice([0.2, 0.5, 0.8]), rng.choice([0.2, 0.5, 0.8])
        A = [c for c in range(n) if rng.random() < p]
        B = [c for c in range(n) if rng.random() < q]
    return (A, B) if rng.random() < 0.5 else (B, A)


UNITS = {"two-finger": (TwoFingerIntersector, (0, 1)), "skip-ahead": (SkipAheadIntersector, (0, 1)),
         "leader": (LeaderFollowerIntersector, (0,)), "follower": (LeaderFollowerIntersector, (1,))}


class Feed:
    """An intersection unit fed with what is recorded, in batches."""

    def __init__(self, ctx, x, how):
        self.ctx, self.x, self.how, self.err = ctx, x, how, ""
        cls, self.which = UNITS[x]
        self.u = cls()
        self.pend = ([], [])
        self.got = [[0, self.u.getNumIntersects()]]

    def rows(self, t0, t1):
        self.pend[0].extend(t0)
        self.pend[1].extend(t1)

    def call(self, done):
        if self.err:
            return
        self.err, _ = self.ctx.call(self.u.addTraces, *[[list(r) for r in self.pend[i]] for i in self.which])
        self.pend = ([], [])
        if not self.err:
            self.got.append([done, self.u.getNumIntersects()])

    def end(self):
        return dict(x=self.x, how=self.how, err=self.err, got=self.got)


def nest(ctx, pairs=None):
    """A loop nest with an intersection in its innermost loop; each fiber's rows in batches."""
    rng = ctx.rng
    lf = pairs is None and rng.random() < 0.2
    tup = pairs is None and rng.random() < 0.1
    pop = rng.random() < 0.25
    proj = rng.choice([0, 0, 0, 1, 3]) if not lf and not tup and pairs is None else 0
    if tup:
        pop = False
    lazy = pairs is None and not lf and rng.random() < 0.15
    depth = rng.choice([0, 1, 1, 1, 2]) if pairs is None else 1
    n = rng.choice([3, 4, 6, 9, 12])
    outer = ["M", "N"][:depth]
    skip = rng.choice([0, 0, 0.3])
    junk = rng.choice([0, 0, 0.3])
    todo = list(pairs or [])
    log = []          # the raw lists, in order
    Metrics.beginCollect(os.path.join(ctx.scratch, "i"))
    if tup:
        Metrics.associateShape("K", ((n + 2) // 3, 3))
    first = 2 if pop else 0
    ty = [f"intersect_{first}", f"intersect_{first + 1}"]
    for t in rng.sample(ty, 2):
        Metrics.trace("K", t, consumable=True)
    if rng.random() < 0.3:
        for r in outer + ["K"]:
            Metrics.trace(r)
    xs = ["leader"] if lf else list(UNITS)
    # each fiber / all at once / at random; empty batches in between
    feeds = [Feed(ctx, x, how) for x in xs for how in ("each", "once", "some")]
    real = rng.random() < 0.3      # take the rows only at the end
    if real:
        feeds = [f for f in feeds if f.how == "once"]

    def take():
        t = [Metrics.consumeTrace("K", x) for x in ty]
        for f in feeds:
            f.rows(*t)

    def inner():
        A, B = todo.pop() if pairs is not None else lists(rng, n)
        un = rng.random() < 0.07 and not lf and not tup and not proj
        a = a_fiber(rng, A, "K", n, junk, un, tup)
        b = a_fiber(rng, B, "K", n, junk, False, tup)
        if proj:
            a.getRankAttrs().setId("KA")
            Metrics.matchRanks("K", "KA")
            a = a.project(lambda c: c + proj, rank_id="K")
            A = [c + proj for c in A]
        if un:
            A = list(range(n))
        if lazy and not un:     # an operand that is an intersection itself
            A2 = lists(rng, n)[0]
            a = a & a_fiber(rng, [c + proj for c in A2], "K", n + proj, junk, False, tup)
            A = [c for c in A if c - proj in A2]
        x = Fiber.intersection(a, b, style="leader-follower") if lf else a & b
        if pop:
            z = Fiber(shape=n + 3)
            z.getRankAttrs().setId("K")
            for _, (z_ref, v) in z << x:
                if rng.random() < 0.7:
                    z_ref += 1
        else:
            for _ in x:
                pass
        log.append(dict(lf=lf, a=A, b=B))

    def step():
        if rng.random() >= skip or pairs is not None:
            inner()
        if not real:
            take()
            for f in feeds:
                if f.how == "each" or f.how == "some" and rng.random() < 0.4:
                    f.call(len(log))

    def loop(d):
        if d == len(outer):
            return step()
        if pairs is not None:
            cs = list(range(len(pairs)))
        else:
            cs = sorted(rng.sample(range(6), rng.randint(0, 4)))
        f = Fiber(cs, [1] * len(cs), shape=max(6, len(cs)))
        f.getRankAttrs().setId(outer[d])
        if len(outer) == 1 and len(cs) > 1 and rng.random() < 0.2:
            # a loop left early, then done again: the same coordinates in other iterations
            last = rng.choice(cs[1:])
            for c, _ in f:
                loop(d + 1)
                if c == last:
                    break
            if todo == [] and pairs is not None:
                return
        for _ in f:
            if pairs is not None and not todo:
                return
            loop(d + 1)
    err, _ = ctx.call(loop, 0)
    if not err:
        take()
        for f in feeds:
            f.call(len(log))
            if rng.random() < 0.2:
                f.call(len(log))       # nothing new
    ctx.call(Metrics.endCollect)
    C.reset()
    ctx.emit(dict(op="isect", err=err, fs=log, us=[f.end() for f in feeds]))


def tree(f, d):
    return [dict(c=c, k=tree(p, d - 1) if d > 1 else []) for c, p in zip(f.coords, f.payloads)]


def swaps(ctx):
    rng = ctx.rng
    D = rng.choice([2, 2, 2, 3, 3, 4])
    ids = "JKMN"[:D]
    top = rng.choice([2, 4, 7])
    shape = {r: rng.randint(1, top if i >= D - 2 else 3) for i, r in enumerate(ids)}
    vals = K.rand_vals(rng, ids, shape)
    junk = rng.random() < 0.4
    t0 = K.tree(ids, vals, shape, rng if junk else None)

    def again(t):       # other payload values, zeros too
        return [(c, again(s) if isinstance(s, list) else rng.choice([0, 0, 1, 5, -3])) for c, s in t]
    T = Tensor.fromFiber(rank_ids=list(ids), fiber=K.fib(t0, shape, ids), shape=[shape[r] for r in ids])
    T2 = Tensor.fromFiber(rank_ids=list(ids), fiber=K.fib(again(t0), shape, ids), shape=[shape[r] for r in ids])
    before, tr = enc(T.getRoot()), tree(T.getRoot(), D)
    coll = rng.random() < 0.1
    if coll:
        Metrics.beginCollect(os.path.join(ctx.scratch, "s"))
    qs = []
    for _ in range(rng.randint(1, 4)):
        d = rng.randint(0, D - 2)
        radix = rng.choice([2, 2, 3, 4, 5, 0, 0, 100])
        lat = rng.choice([1, 1, 2, 3, 7, 0])
        unb = rng.random() < 0.5
        r = radix or rng.choice(["N", float("inf")])
        err, res = ctx.call(Compute.numSwaps, T, d, r, "N" if unb else lat)
        err2, res2 = ctx.call(Compute.numSwaps, T2, d, r, "N" if unb else lat)
        qs.append(dict(d=d, radix=radix, unb=unb, lat=lat, err=err or err2, res=0 if err or err2 else int(res), other=0 if err or err2 else int(res2)))
    if coll:
        ctx.call(Metrics.endCollect)
        C.reset()
    ctx.emit(dict(op="swaps", tree=tr, qs=qs, after=enc(T.getRoot()) == before))


def gen(ctx):
    # every pair of lists over a few coordinates, several fibers in a row
    n = 5 if ctx.thorough else 4
    ls = [list(x) for k in range(n + 1) for x in itertools.combinations(range(n), k)]
    ps = [(a, b) for a in ls for b in ls]
    mine = [p for p in ps if ctx.mine()]
    ctx.rng.shuffle(mine)
    while mine:
        k = ctx.rng.randint(1, 5)
        nest(ctx, mine[:k])
        mine = mine[k:]
    for _ in range(ctx.share(12000, 150000)):
        nest(ctx)
    for _ in range(ctx.share(12000, 150000)):
        swaps(ctx)


if __name__ == "__main__":
    def mi(n, f, th):
        return dict(name=f"intersect-{n}{f}", module="MC_Intersect", args=("-deadlock", "-workers", "2"), thorough_only=th,
                    cfg="SPECIFICATION Spec\nCONSTANTS N = %d F = %d\nINVARIANTS Batch Bounds\n" % (n, f))
    def mm(n, l, th):
        return dict(name=f"merge-{n}{l}", module="MC_Merge", args=("-deadlock", "-workers", "2"), thorough_only=th,
                    cfg="SPECIFICATION Spec\nCONSTANTS N = %d L = %d\nINVARIANTS Finite One Unbounded Sorted\n" % (n, l))
    vt.main("C19", gen, "Trace_C19", mc=[mi(5, 1, False), mi(3, 2, False), mi(2, 3, False), mi(4, 2, True), mi(7, 1, True), mm(3, 4, False), mm(4, 4, True), mm(2, 6, True)],
            rule="the pairs of lists over 0..3 are each replayed exactly once overall; the rest random")
