"""Histories of calls of the metrics collector, for spec/MetricsApi.tla."""
import os
from ft import Metrics
import collect as C


def history(rng, prefix, sessions=3, reset=True, loose=False):
    """Random sessions: loop nests over up to three ranks, with accesses, lookups, matched
    ranks, consumption and threshold changes at any time.  A loose history may do what the
    specification gives no answer for; its refusals are answers."""
    if reset:
        C.reset()
    ops = []

    def do(op, *a, **k):
        if not loose:
            return do1(op, *a, **k)
        try:
            return do1(op, *a, **k)
        except Exception as e:
            ops.append(dict(op=op, r=str(a[:1]), out=type(e).__name__))

    def do1(op, r="", ty="", r2="", c=0, pos=0, it=(), cons=False, t=()):
        o = dict(op=op, r=r, ty=ty, r2=r2, c=c, pos=pos, it=list(it), cons=cons, t=list(t))
        out = None
        if op == "begin":
            Metrics.beginCollect(prefix)
        elif op == "end":
            Metrics.endCollect()
        elif op == "trace":
            Metrics.trace(r, ty, consumable=cons)
        elif op == "match":
            Metrics.matchRanks(r, r2)
        elif op == "register":
            Metrics.registerRank(r)
        elif op == "shape":
            Metrics.associateShape(r, tuple(it))
        elif op == "use":
            if t:
                c = tuple(t)
            if it:
                Metrics.addUse(r, c, pos, type_=ty, iteration_num=list(it))
            else:
                Metrics.addUse(r, c, pos, type_=ty)
        elif op == "inc":
            Metrics.incIter(r)
        elif op == "enditer":
            Metrics.endIter(r)
        elif op == "label":
            out = Metrics.getLabel(r)
        elif op == "count":
            Metrics.incCount(r, ty, pos)
        elif op == "cap":
            Metrics.setNumCachedUses(pos)
        elif op == "consume":
            out = [[str(x) for x in row] for row in Metrics.consumeTrace(r, ty)]
        elif op == "iter":
            out = list(Metrics.getIter())
        elif op == "index":
            out = Metrics.getIndex(r)
        elif op == "traced":
            out = Metrics.isTraced(r, ty)
        elif op == "collecting":
            out = Metrics.isCollecting()
        elif op == "dump":
            out = [dict(a=a, b=b, n=n) for a, d in Metrics.dump().items() for b, n in d.items()]
        elif op == "file":
            p = f"{prefix}-{r}-{ty}.csv"
            out = [x.split(",") for x in open(p).read().splitlines()] if os.path.exists(p) else []
        if out is not None:
            o["out"] = out
        ops.append(o)
        return out

    ranks = ["K", "M", "N"]
    types = ["iter", "x_0", "y_1"]
    nsess = rng.randint(1, sessions)
    for s in range(nsess):
        if rng.random() < 0.5:
            do("cap", pos=rng.randint(2, 6))
        do("begin")
        order = rng.sample(ranks, rng.randint(1, 3))
        mem, file = set(), set()
        matched = {}
        for i, r in enumerate(order):
            if rng.random() < 0.4:
                matched["W%d" % i] = r
                if rng.random() < 0.3:
                    matched["V%d" % i] = r
        names = order + list(matched)
        known = set()

        def trace():
            r, ty, m = rng.choice(names), rng.choice(types), rng.random() < 0.4
            (mem if m else file).add((r, ty))
            do("trace", r, ty, cons=m)
        late = list(matched.items()) if rng.random() < 0.3 else []
        for w, r in rng.sample(list(matched.items()), len(matched)):
            if (w, r) not in late:
                if w[0] == "V" and rng.random() < 0.5:    # in a chain
                    r = "W" + w[1:]
                a, b = rng.choice([(w, r), (r, w)])
                do("match", a, r2=b)
        for _ in range(rng.randint(0, 5)):
            trace()

        shapes = {}
        for r in names:
            if rng.random() < 0.3:
                shapes[r] = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
                do("shape", r, it=shapes[r])

        def parts(r):
            """Coordinates of several parts, where they can be recorded."""
            if r not in shapes and loose and rng.random() < 0.3:
                return [1, 1]
            if r in shapes and rng.random() < 0.5:
                if rng.random() < 0.1:
                    shapes[r] = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
                    do("shape", r, it=shapes[r])
                return [rng.randrange(x) for x in shapes[r]]
            return []

        def now(r):
            """r and what stands for it."""
            return [x for x in names if x == r and r in known or matched.get(x) == r and r in known and (x, r) not in late]

        def noise(i):
            if rng.random() < 0.12:
                trace()
            if mem and rng.random() < 0.15:
                do("consume", *rng.choice(sorted(mem)))
            if rng.random() < 0.1:
                do("count", rng.choice(["Compute", "Other"]), rng.choice(["mul", "add"]), pos=rng.randint(0, 3))
            if rng.random() < 0.05:
                do(rng.choice(["iter", "collecting", "dump"]))
            if rng.random() < 0.05:
                do("traced", rng.choice(names), rng.choice(types))
            if rng.random() < 0.03:
                do("cap", pos=rng.randint(2, 6))
            if late and rng.random() < 0.3:
                w, r = late.pop()
                do("match", r, r2=w)
            r = rng.choice(order[:i + 1])
            n = now(r)
            if n and rng.random() < 0.15:
                do("index", rng.choice(n))
            if n and rng.random() < 0.2:
                do("label", rng.choice(n))
        abort = rng.random() < 0.25
        left = [rng.randint(0, 60)] if abort else [200]

        class Abort(Exception):
            pass

        def loop(i):
            r = order[i]
            do("register", r)
            known.add(r)
            for b in range(rng.randint(0, 3)):
                left[0] -= 1
                if left[0] < 0:
                    raise Abort
                for _ in range(rng.choice([0, 0, 1, 2])):
                    x = rng.choice(now(r))
                    it = [rng.randint(0, 3) for _ in range(i + 1)] if rng.random() < 0.1 else []
                    do("use", x, rng.choice(types[1:]), c=rng.randint(0, 5), pos=rng.randint(0, 5), it=it, t=parts(x))
                    if rng.random() < 0.3:
                        do("inc", x)
                noise(i)
                do("use", r, "iter", c=b, pos=b, t=parts(r))
                if i + 1 < len(order):
                    loop(i + 1)
                noise(i)
                do("inc", r)
            if rng.random() < 0.9:
                do("enditer", r)
        try:
            loop(0)
        except Abort:
            if s < nsess - 1 and rng.random() < 0.6:
                continue          # the next session begins without this one having ended
        for k in sorted(mem):
            do("consume", *k)
        do("end")
        do("collecting")
        do("dump")
        for k in sorted(file):
            do("file", *k)
    if reset:
        C.reset()
    return ops
