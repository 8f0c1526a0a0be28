"""C03: point access behaves like a map from points to values."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vt
from machine import *
from xform import rand_tensor, rand_op, apply, after, fibers

VALS = (0, 1, 2, 3, 7, -2, 0.5)
NOW = dict(k="none", v=[0, 1])


def py(c):
    return c[0] if len(c) == 1 else tuple(c)


class Subject:
    """A tensor or free fiber under point access."""

    def __init__(self, ctx, X, D, d, coords):
        self.ctx, self.X, self.D, self.d, self.coords = ctx, X, D, d, coords
        self.ids = Ids()
        self.handles = []       # leaf boxes: (point, object)
        self.fibs = []          # fibers obtained by reference: (path, object)
        self.emit("start", self.snap(), {})

    def root(self):
        return root_of(self.X) if isinstance(self.X, Tensor) else self.X

    def snap(self):
        return enc(self.root(), self.ids)

    def emit(self, op, pre, kw):
        post = self.snap()
        e = dict(op=op, D=self.D, d=list(val(self.d)), pre=pre, post=post, err="", path=[], pt=[], hint=[], alloc=True, dflt=[],
                 res=node("N", i=0), w=NOW, pos=-1, mut=False, how="")
        e.update(kw)
        self.ctx.emit(e, key=(op, repr(e["pt"]), repr(pre), repr(e["hint"])))

    def point(self, k):
        """A point of k coordinates, likely to meet something stored."""
        rng = self.ctx.rng
        pt, f = [], self.root()
        for i in range(k):
            cs = list(f.coords) if isinstance(f, Fiber) else []
            if cs and rng.random() < 0.6:
                c = rng.choice(cs)
            else:
                c = self.coords[i](rng)
            pt.append(c)
            f = Payload.get(f.payloads[f.coords.index(c)]) if c in cs else None
        return pt

    def site(self):
        """Where to access: (path, object)."""
        rng = self.ctx.rng
        r = rng.random()
        if r < 0.6 or self.D < 2:
            return [], self.X if rng.random() < 0.7 or self.D == 0 else self.root()
        if r < 0.8 and self.fibs:
            return rng.choice(self.fibs)
        path, f = [], self.root()
        for _ in range(rng.randint(1, self.D - 1)):
            if not f.coords:
                break
            i = rng.randrange(len(f.coords))
            path.append(flat(f.coords[i]))
            f = Payload.get(f.payloads[i])
        return path, f

    def hint(self, f, c):
        """A search-start shortcut: usable most of the time."""
        rng = self.ctx.rng
        cs = list(f.coords)
        try:
            ok = [0] + [i for i in range(len(cs)) if cs[i] <= c]
        except TypeError:
            return None
        r = rng.random()
        if r < 0.35:
            h = f.getSavedPos()
        elif r < 0.9:
            h = rng.choice(ok[-2:] if rng.random() < 0.5 else ok)
        else:
            h = rng.randrange(len(cs) + 2)
        return h

    def write(self, pt, box):
        rng = self.ctx.rng
        pre = self.snap()
        w = dict(k=rng.choice(("set", "set", "add", "sub", "mul")), v=list(val(rng.choice(VALS + (self.d,)))))
        v = num(w["v"])
        if rng.random() < 0.3:
            v = Payload(v)

        def go():
            b = box
            if w["k"] == "set":
                b <<= v
            elif w["k"] == "add":
                b += v
            elif w["k"] == "sub":
                b -= v
            else:
                b *= v
        err, _ = self.ctx.call(go)
        self.emit("write", pre, dict(err=err, pt=pt, w=w))

    def step(self):
        rng = self.ctx.rng
        path, o = self.site()
        f = o if isinstance(o, Fiber) else self.root()
        D = self.D - len(path)
        k = rng.choice(("read",) * 5 + ("ref",) * 5 + ("write",) * 4 + ("position", "position", "positionref", "other"))
        pre = self.snap()
        if self.D == 0:
            k = rng.choice(("read", "ref", "write"))
        sub = lambda n: self.point(len(path) + n)[len(path):]
        if k in ("read", "ref"):
            n = 0 if self.D == 0 else (D if rng.random() < 0.6 else rng.randint(1, D))
            pt = sub(n)
            h = self.hint(f, pt[0]) if n == 1 and rng.random() < 0.5 and isinstance(f, Fiber) else None
            kw = {}
            e = dict(path=path, pt=[flat(c) for c in pt], hint=[] if h is None else [h], how=type(o).__name__)
            if h is not None:
                kw["start_pos"] = Payload(h) if rng.random() < 0.3 else h
            if k == "read":
                if rng.random() < 0.3 and n:
                    kw["allocate"] = e["alloc"] = False
                    if rng.random() < 0.6:
                        kw["default"] = rng.choice((0, 4, 9, self.d))
                        e["dflt"] = [list(val(kw["default"]))]
                err, r = self.ctx.call(lambda: o.getPayload(*pt, **kw))
                self.emit("read", pre, dict(e, err=err, res=enc(r, self.ids)))
                return
            err, r = self.ctx.call(lambda: o.getPayloadRef(*pt, **kw))
            self.emit("ref", pre, dict(e, err=err, res=enc(r, self.ids)))
            if err:
                return
            full = path + [flat(c) for c in pt]
            if isinstance(r, Fiber):
                self.fibs.append((full, r))
            else:
                self.handles.append((full, r))
                if rng.random() < 0.7:
                    self.write(full, r)
        elif k == "write":
            if not self.handles:
                return
            self.write(*rng.choice(self.handles))
        elif k in ("position", "positionref"):
            c = sub(1)
            if not c:
                return
            h = self.hint(f, c[0]) if rng.random() < 0.6 else None
            fn = f.getPosition if k == "position" else f.getPositionRef
            hh = Payload(h) if h is not None and rng.random() < 0.3 else h
            err, r = self.ctx.call(lambda: fn(c[0], start_pos=hh) if h is not None else fn(c[0]))
            self.emit("position", pre, dict(err=err, path=path, pt=[flat(c[0])], hint=[] if h is None else [h],
                                            pos=-1 if r is None else r, mut=k == "positionref"))
        else:
            # something else reads or writes the tree in between
            g = f
            j = rng.randrange(7)

            def go():
                if j == 0:
                    for _ in g.iterOccupancy(start_pos=0 if g.coords else None):
                        pass
                elif j == 1:
                    for _ in g & g:
                        pass
                elif j == 2 and D == 1 and isinstance(self.coords[-1](rng), int):
                    g.append((g.coords[-1] if g.coords else 0) + 1, rng.choice((0, 5)))
                elif j == 3:
                    repr(g), str(g)
                elif j == 5:
                    poke(self.X)
                elif j == 6 and f.coords and all(isinstance(c, int) for c in f.coords):
                    # the elements move
                    self.handles, self.fibs = [], []
                    i = rng.randrange(len(f.coords))
                    if rng.random() < 0.5:
                        f[i] = CoordPayload(f.coords[i] + rng.choice((1, -1)) if f.coords[i] else 1, None)
                    elif not isinstance(self.X, Tensor) or max(f.coords) + 1 < f.getShape(all_ranks=False):
                        f.updateCoords(lambda i, c, p: c + 1)
                elif j == 4 and D == 1 and isinstance(self.coords[-1](rng), int):
                    for c, (z, a) in g << Fiber([1, 2], [1, 1]):
                        if rng.random() < 0.5:
                            z += a
            before = {id(b) for b in self.leaves()}
            err, _ = self.ctx.call(go)
            live = {id(b) for b in self.leaves()}
            self.handles = [h for h in self.handles if id(h[1]) in live]
            self.emit("other", pre, dict(err="" if err != "Timeout" else err, how=str(j)))

    def look(self, path, f, c, k):
        """One access to coordinate c of f, recorded."""
        pre = self.snap()
        if k == "pos":
            err, r = self.ctx.call(f.getPosition, c)
            self.emit("position", pre, dict(err=err, path=path, pt=[flat(c)], hint=[], pos=-1 if r is None else r, mut=False))
        else:
            err, r = self.ctx.call(f.getPayload, c)
            self.emit("read", pre, dict(path=path, pt=[flat(c)], hint=[], how="Fiber", err=err, res=enc(r, self.ids)))

    def moves(self):
        """A coordinate is looked up, elements move, and it is looked up again (and again)."""
        rng = self.ctx.rng
        path, f = self.site()
        if isinstance(f, Tensor):
            f = self.root()
        if not isinstance(f, Fiber) or len(f.coords) < 1 or not all(isinstance(c, int) for c in f.coords):
            return
        top = f.getShape(all_ranks=False) - 1 if isinstance(self.X, Tensor) else max(f.coords) + 2
        k = rng.choice(("pos", "pos", "read"))
        i = rng.randrange(len(f.coords))
        c = f.coords[i]
        self.look(path, f, c, k)
        for _ in range(rng.randint(1, 3)):
            pre = self.snap()
            cs = list(f.coords)
            how = rng.choice(("up", "down", "mirror", "one"))
            self.handles, self.fibs = [], []

            def go():
                if how == "up" and max(cs) < top:
                    f.updateCoords(lambda i, c, p: c + 1)
                elif how == "down" and min(cs) > 0:
                    f.updateCoords(lambda i, c, p: c - 1)
                elif how == "mirror" and max(cs) <= top:
                    f.updateCoords(lambda i, c, p: max(cs) + min(cs) - c)
                elif how == "one":
                    j = rng.randrange(len(cs))
                    n = cs[j] + rng.choice((1, -1))
                    if 0 <= n <= top:
                        f[j] = CoordPayload(n, None)
            err, _ = self.ctx.call(go)
            self.emit("other", pre, dict(err="" if err != "Timeout" else err, how="move-" + how))
            self.look(path, f, c, k)

    def leaves(self):
        out = []

        def go(f):
            for p in f.payloads:
                if isinstance(p, Fiber):
                    go(p)
                else:
                    out.append(p)
        go(self.root())
        return out


def gen(ctx):
    rng = ctx.rng
    for h in range(ctx.share(3000, 20000)):
        r = rng.random()
        if r < 0.05:
            d = 0
            S = Subject(ctx, Tensor(rank_ids=[]), 0, d, [])
        elif r < 0.35:
            D = rng.choice((1, 2, 2, 3, 3))
            nc = size(rng, D, (2, 3, 5), 0.15)
            d = rng.choice((0, 0, 7))
            t = rtree(rng, D, nc, [d, 1])
            if "F" in {x["k"] for x in t["p"]} or D == 1:
                # the depth (and default) of a free fiber must show in its payloads
                if D == 3 and not all(p["p"] for p in t["p"]):
                    continue
            elif D > 1:
                continue
            if rng.random() < 0.3:
                t = None
                D = 1
                f = Fiber([], [], default=d)
            else:
                f = mk(t, [d, 1])
            S = Subject(ctx, f, D, d, [lambda q, n=nc: q.randrange(n + 2)] * D)
        else:
            err, q = ctx.call(rand_tensor, rng, None, None, None, ctx.scratch)
            if q is None:
                continue
            t, kind = q
            coords = [lambda q, n=s: q.randrange(n + 1) for s in t.shape]
            T = t.T
            if rng.random() < 0.3:
                op = rand_op(rng, t, only=["flatten", "swizzle", "split"])
                if op is not None and op.get("style") != "linear":
                    err, R = ctx.call(apply, T, op)
                    if not err and isinstance(R, Tensor):
                        t = after(t, op, R)
                        T = R
                        def pick(s):
                            if s == "int":
                                return lambda q: q.randrange(5)
                            if s[0] == "tuple":
                                return lambda q: tuple(q.randrange(3) for _ in range(s[1]))
                            return lambda q: (q.randrange(3), q.randrange(3))
                        if any(s != "int" and s[0] == "pair" and s[1] > 2 for s in t.styles):
                            continue
                        coords = [pick(s) for s in t.styles]
            if len(repr(enc(root_of(T)))) > 3000:
                continue
            S = Subject(ctx, T, t.D, t.d, coords)
        ctx.notes["histories"] += 1
        for _ in range(rng.randint(6, 24)):
            if S.D and rng.random() < 0.04:
                S.moves()
            else:
                S.step()


if __name__ == "__main__":
    cfg = """SPECIFICATION Spec
CONSTANTS D = %d
 NC = %d
 MaxWrites = %d
INVARIANTS Refines Reads PrefixReads Stays HandlesLive Shortcuts
CHECK_DEADLOCK FALSE
"""
    vt.main("C03", gen, "Trace_C03", history=True,
            mc=[dict(name="map-2x2", module="MC_PointMap", cfg=cfg % (2, 2, 3)),
                dict(name="map-1x4", module="MC_PointMap", cfg=cfg % (1, 4, 4)),
                dict(name="map-3x2", module="MC_PointMap", cfg=cfg % (3, 2, 3), thorough_only=True, timeout=800, heap="4g",
                     args=("-workers", "4"))],
            rule="histories of reads, references, writes through handles and position lookups on one tree; "
                 "distinct by access and tree state")
