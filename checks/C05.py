"""C05: populate loops."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vt
from machine import *


class Run:
    """One program of populate loops, observed loop by loop."""

    def __init__(self, ctx, ids, root, T, d, snap):
        self.ctx, self.ids, self.root, self.T, self.d, self.snap = ctx, ids, root, T, d, snap
        self.loops, self.mids = [], []
        self.n = 0

    def mid(self):
        if self.snap and len(self.mids) < 4:
            self.n += 1
            if self.n % self.snap == 0:
                self.mids.append(dict(t=enc(self.root, self.ids), b=[] if self.T is None else [book(self.T, self.ids)]))

    def op(self, f):
        """A source fiber as an operand of CoIter."""
        a = f.getRankAttrs()
        o = f.getOwner()
        up = "any"
        if o is not None:
            up = "yes" if o.getNextRank() is not None else "no"
        elif f.payloads:
            up = "yes" if isinstance(f.payloads[0], Fiber) else "no"
        act = [0, 0]
        if a.getFormat() == "U":
            act = [flat(x)[0] for x in f.getActive()]
        return dict(t=enc(f, self.ids), d=val(self.sd), up=up, fmt=a.getFormat(), act=act)

    def write(self, r, w, av):
        v = num(w["v"]) if "v" in w else None
        if w.get("box"):
            v = Payload(v)
        k = w["k"]
        if k == "set":
            r <<= v
        elif k == "add":
            r += v
        elif k == "sub":
            r -= v
        elif k == "mul":
            r *= v
        elif k == "copy":
            r <<= av
        elif k == "acc":
            r += av
        elif k == "scale":
            r *= av

    def source(self, form, fs):
        """Source expression over the operands, and how the specification reads it."""
        lf = lambda o: {"x": "leaf", "a": [], "o": o}
        if form == "one":
            return fs[0], lf(1)
        e = {"x": form, "a": [lf(1), lf(2)], "o": 0}
        f = {"and": lambda: fs[0] & fs[1], "or": lambda: fs[0] | fs[1], "xor": lambda: fs[0] ^ fs[1],
             "sub": lambda: fs[0] - fs[1]}[form]()
        return f, e

    def populate(self, z, fs, form, acts, h, start=None):
        ids = self.ids
        ops = [self.op(f) for f in fs]
        src, e = self.source(form, fs)
        lp = dict(h=h, e=e, ops=ops, z0=enc(z, ids), z1=node("N"), y=[], done=False, given=[])
        self.loops.append(lp)
        if self.ctx.rng.random() < 0.12:
            poke(z), [poke(f) for f in fs]
        it = z << src if start is None else z.__lshift__(src, start_pos=start)
        for i, (c, (zr, av)) in enumerate(it):
            y = dict(c=flat(c), a=enc(av, ids), z=enc(zr, ids), end=node("N"), w=dict(k="none"), av=[0, 1], alone=False)
            lp["y"].append(y)
            self.mid()
            if isinstance(zr, Fiber) and self.ctx.rng.random() < 0.05:
                poke(zr)
            leafs = self.pick(form, av)
            act = acts[i % len(acts)]
            k = act["k"]
            if k == "skip" or k == "read":
                y["alone"] = True
                if k == "read":
                    str(zr)
                    len(z)
            elif k == "write" and isinstance(zr, Payload):
                w = act["w"]
                if w["k"] in ("copy", "acc", "scale"):
                    y["av"] = list(val(Payload.get(leafs[-1])))
                y["w"] = w
                for w1 in ([w] if not act.get("twice") else [dict(k="set", v=[7, 1]), dict(k="set", v=y["z"]["v"]), w]):
                    self.write(zr, w1, leafs[-1])
            elif k == "nest":
                self.populate(zr, leafs if form != "sub" else leafs[:1], "one" if len(leafs) == 1 else act.get("form", form),
                              act["sub"], h - 1)
            elif k == "twice":
                self.populate(zr, leafs[:1], "one", act["sub"], h - 1)
                self.populate(zr, leafs[-1:], "one", act["sub"][::-1], h - 1)
            elif k == "ref":
                r = zr.getPayloadRef(*[crd(x) for x in act["pt"]])
                if isinstance(r, Payload):
                    self.write(r, act["w"], None)
            elif k == "assign":
                zr <<= leafs[0]
            elif k == "clear":
                zr.clear()
            self.mid()
            y["end"] = enc(zr, ids)
        lp["z1"], lp["done"] = enc(z, ids), True
        self.mid()

    def pick(self, form, av):
        """The source payloads below."""
        if form in ("or", "xor"):
            return list(Payload.get(av))[1:]
        if form == "and":
            return list(Payload.get(av))
        return [av]

    def chain(self, z, zz, a, acts, h):
        """z << (zz << a): two destinations at once."""
        ids = self.ids
        op = self.op(a)
        l1 = dict(h=h, e={"x": "given", "a": [], "o": 0}, ops=[op], z0=enc(z, ids), z1=node("N"), y=[], done=False, given=[])
        l2 = dict(h=h, e={"x": "leaf", "a": [], "o": 1}, ops=[op], z0=enc(zz, ids), z1=node("N"), y=[], done=False, given=[])
        self.loops += [l1, l2]
        for i, (c, (zr, (yr, av))) in enumerate(z << (zz << a)):
            ys = []
            for lp, r in ((l1, zr), (l2, yr)):
                y = dict(c=flat(c), a=enc(av, ids), z=enc(r, ids), end=node("N"), w=dict(k="none"), av=[0, 1], alone=False)
                lp["y"].append(y)
                ys.append((y, r))
            act = acts[i % len(acts)]
            if act["k"] == "nest":
                self.chain(zr, yr, av, act["sub"], h - 1)
            elif act["k"] == "write":
                for j, (y, r) in enumerate(ys):
                    if act.get("which", 3) >> j & 1:
                        if act["w"]["k"] in ("copy", "acc", "scale"):
                            y["av"] = list(val(Payload.get(av)))
                        y["w"] = act["w"]
                        self.write(r, act["w"], av)
                    else:
                        y["alone"] = True
            self.mid()
            for y, r in ys:
                y["end"] = enc(r, ids)
        l1["given"] = [y["c"] for y in l2["y"]]
        for lp, r in ((l1, z), (l2, zz)):
            lp["z1"], lp["done"] = enc(r, ids), True


def own(D, t, d, shape=None, fmt=None, pre="R"):
    kw = dict(shape=shape) if shape else {}
    T = Tensor.fromFiber([pre + "%d" % i for i in range(D)], mk(t, d), default=num(d), **kw)
    for i, x in enumerate(fmt or []):
        T.setFormat(pre + "%d" % i, x)
    return T


def drive(ctx, D, zt, ats, d, acts, form="one", zown=True, aown=False, shape=None, zfmt=None, afmt=None, sd=None,
          snap=0, start=None, collect=False, chain=None, act=None, zT=None, aT=None):
    sd = d if sd is None else sd
    ids = Ids()
    Tz = zT if zT is not None else own(D, zt, d, shape, zfmt) if zown else None
    z = root_of(Tz) if zown else mk(zt, d)
    srcs, Ts = [], []
    for t in ats:
        if aT is not None:
            Ts.append(aT)
            srcs.append(root_of(aT))
            aT = None
        elif aown:
            T = own(D, t, sd, shape, afmt)
            Ts.append(T)
            srcs.append(root_of(T))
        else:
            srcs.append(mk(t, sd))
    if act is not None:
        for f in srcs:
            f.setActive(act)
    R = Run(ctx, ids, z, Tz, d, snap)
    R.sd = num(sd)
    z0, a0 = enc(z, ids), [enc(f, ids) for f in srcs]
    extra = []
    if chain is not None:
        T2 = own(D, chain, d, shape)
        extra.append(T2)

    def go():
        if collect:
            Metrics.beginCollect("c05")
            for i in range(D):
                for ty in ("populate_read_0", "populate_write_0", "populate_1", "populate_0", "iter"):
                    Metrics.trace("R%d" % i, type_=ty)
        try:
            if chain is not None:
                R.chain(z, root_of(extra[0]), srcs[0], acts, D)
            else:
                R.populate(z, srcs, form, acts, D, start)
        finally:
            if collect:
                Metrics.endCollect()
    err, _ = ctx.call(go)
    pure = form == "one" and list(sd) == list(d) and chain is None and not any(x == "U" for x in (afmt or [])) and act is None \
        and not any(r.getFormat() == "U" for T in Ts for r in T.ranks) and all(pure_act(a) for a in acts)
    ev = dict(op="program", D=D, d=d, err=err, z0=z0, z1=enc(z, ids), a0=a0, a1=[enc(f, ids) for f in srcs],
              loops=R.loops, mids=R.mids, acts=acts, pure=pure,
              book=[] if Tz is None else [book(Tz, ids)],
              sbook=[dict(t=enc(root_of(T), ids), b=[book(T, ids)]) for T in Ts + extra], collect=collect)
    ctx.notes["loops"] += len(R.loops)
    ctx.notes["offers"] += sum(len(lp["y"]) for lp in R.loops)
    if collect:
        ctx.notes["collecting"] += 1
    ctx.emit(ev, key=(repr(z0["c"]), repr(a0), repr(acts), form, repr(afmt)) if a0[0]["c"] else None)


def pure_act(a):
    return a["k"] in ("skip", "clear", "assign", "ref") or (a["k"] == "write" and not a.get("twice")) \
        or (a["k"] == "nest" and all(pure_act(x) for x in a["sub"]))


NOW = dict(k="none")
WR = [dict(k="set", v=[0, 1]), dict(k="set", v=[3, 1]), dict(k="copy"), dict(k="acc"), dict(k="mul", v=[0, 1]),
      dict(k="sub", v=[1, 1]), dict(k="scale"), dict(k="add", v=[2, 1])]


def rwrite(rng, d):
    w = rng.choice(WR + [dict(k="set", v=d)])
    a = dict(k="write", w=w)
    if w["k"] == "sub" and rng.random() < 0.5:
        a["w"] = dict(k="sub", v=rng.choice(([1, 1], [2, 1], [3, 1])))
    if "v" in a["w"] and rng.random() < 0.3:
        a["w"] = dict(a["w"], box=True)
    if rng.random() < 0.1 and "v" in w:
        a["twice"] = True
    return a


def racts5(rng, h, nc, d, form="one"):
    out = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.25:
            a = dict(k=rng.choice(("skip", "skip", "read")))
        elif h == 1:
            a = rwrite(rng, d)
        elif r < 0.75:
            a = dict(k="nest", sub=racts5(rng, h - 1, nc, d, form))
        elif r < 0.8:
            a = dict(k="twice", sub=racts5(rng, h - 1, nc, d, form))
        elif r < 0.9:
            a = dict(k="ref", pt=[[rng.randrange(nc)] for _ in range(rng.randint(1, h - 1))], w=rw(rng, d))
        elif r < 0.95:
            a = dict(k="clear")
        else:
            a = dict(k="assign") if form in ("one", "sub") else dict(k="skip")
        out.append(a)
    return out


def leafs(n, vals):
    out = [([], [])]
    for c in range(n):
        out = out + [(cs + [[c]], ps + [node("B", v=[v, 1])]) for cs, ps in out for v in vals]
    return [node("F", cs, ps, g="i" if cs else "") for cs, ps in out]


def gen(ctx):
    rng = ctx.rng
    # every pair of leaf fibers over 3 coordinates, with every choice for the first offered references
    Z, A = leafs(3, (0, 2)), leafs(3, (0, 1))
    base = [dict(k="skip")] + [dict(k="write", w=w) for w in WR[:4]]
    for z in Z:
        for a in A:
            n = sum(1 for p in a["p"] if p["v"][0])
            progs = list(itertools.product(base, repeat=max(n, 1))) if n < 3 else \
                [tuple(rng.choice(base) for _ in range(3)) for _ in range(20)]
            for acts in progs:
                if ctx.mine() and (ctx.thorough or rng.random() < 0.4):
                    drive(ctx, 1, z, [a], [0, 1], list(acts), zown=rng.random() < 0.7, aown=rng.random() < 0.5)
    # two ranks: every small destination and source, with the basic bodies
    sub = leafs(2, (0, 2))
    sub = [t for i, t in enumerate(sub) if i in (0, 1, 2, 4, 5)]
    two = [([], [])]
    for c in range(2):
        two = two + [(cs + [[c]], ps + [s]) for cs, ps in two for s in sub]
    two = [node("F", cs, ps, g="i" if cs else "") for cs, ps in two]
    b1 = [[dict(k="skip")], [dict(k="write", w=dict(k="copy"))], [dict(k="write", w=dict(k="set", v=[0, 1]))],
          [dict(k="skip"), dict(k="write", w=dict(k="acc"))], [dict(k="write", w=dict(k="sub", v=[2, 1]))]]
    b2 = [[dict(k="nest", sub=s)] for s in b1] + \
         [[dict(k="skip"), dict(k="nest", sub=b1[1])], [dict(k="nest", sub=b1[1]), dict(k="clear")],
          [dict(k="assign"), dict(k="nest", sub=b1[2])],
          [dict(k="ref", pt=[[1]], w=dict(k="set", v=[0, 1])), dict(k="nest", sub=b1[4])]]
    for z in two:
        for a in two:
            for acts in b2:
                if ctx.mine() and (ctx.thorough or rng.random() < 0.2):
                    drive(ctx, 2, z, [a], [0, 1], acts, aown=rng.random() < 0.5, snap=rng.choice((0, 0, 1)))
    # random programs
    for _ in range(ctx.share(6000, 60000)):
        D = rng.choice((1, 2, 2, 3, 3))
        nc = size(rng, D, (2, 3, 5) if D < 3 else (2, 3))
        d = rng.choice(([0, 1], [0, 1], [5, 1], [-1, 1]))
        sd = d if rng.random() < 0.7 else rng.choice(([0, 1], [2, 1]))
        form = rng.choice(["one"] * 5 + ["and", "and", "or", "xor", "sub"])
        zown = D > 1 or rng.random() < 0.7
        aown = rng.random() < 0.6
        ats = [rtree(rng, D, nc, sd) for _ in range(1 if form == "one" else 2)]
        if any(not subs_ok(t, D) for t in ats) and not aown:
            aown = True
        shape = [nc + rng.randint(0, 2)] * D if rng.random() < 0.7 else None
        zt = rtree(rng, D, nc + rng.randint(0, 1) if shape is None or shape[0] > nc else nc, d)
        afmt = [rng.choice("CCU") for _ in range(D)] if aown and shape and rng.random() < 0.4 else None
        zfmt = [rng.choice("CCU") for _ in range(D)] if zown and shape and rng.random() < 0.3 else None
        act = None
        if afmt and rng.random() < 0.4:
            lo = rng.randrange(nc)
            act = (lo, rng.randint(lo, nc))
        collect = bool(zown and aown and shape and rng.random() < 0.15)
        start = None
        if form == "one" and not afmt and not collect and rng.random() < 0.15:
            first = [c for c, p in zip(ats[0]["c"], ats[0]["p"]) if not empty(p, sd)][:1]
            if first:
                start = rng.randint(0, sum(1 for c in zt["c"] if c < first[0]))
        drive(ctx, D, zt, ats, d, racts5(rng, D, nc, d, form), form, zown, aown, shape, zfmt, afmt, sd,
              snap=rng.choice((0, 1, 2)), start=start, collect=collect, act=act)
    # destinations and sources from other constructors and from transforms
    for _ in range(ctx.share(1200, 12000)):
        wz, wa = found(ctx, rng), found(ctx, rng)
        zT = wz.T if wz is not None and rng.random() < 0.7 else None
        aT = wa.T if wa is not None and (zT is None or wa.D == wz.D) else None
        if zT is None and aT is None:
            continue
        D = (wz if zT is not None else wa).D
        if D > 3 and rng.random() < 0.7:
            continue
        d = wz.d if zT is not None else rng.choice(([0, 1], [5, 1]))
        sd = wa.d if aT is not None else d
        form = rng.choice(["one"] * 5 + ["and", "sub"])
        ats = [rtree(rng, D, 3, sd) for _ in range(1 if form == "one" else 2)]
        zown = zT is not None or D > 1 or rng.random() < 0.7
        drive(ctx, D, rtree(rng, D, 3, d), ats, d, racts5(rng, D, 3, d, form), form, zown, True, None, sd=sd,
              snap=rng.choice((0, 1, 2)), zT=zT, aT=aT)
    for _ in range(ctx.share(800, 8000)):
        D = rng.choice((1, 2, 3))
        nc = size(rng, D, (2, 3, 4), 0.03)
        d = rng.choice(([0, 1], [0, 1], [5, 1]))

        def acts(h):
            return [dict(k="nest", sub=acts(h - 1)) if h > 1 else
                    (dict(k="write", w=rwrite(rng, d)["w"], which=rng.randrange(4)) if rng.random() < 0.8 else dict(k="none"))
                    for _ in range(rng.randint(1, 3))]
        drive(ctx, D, rtree(rng, D, nc, d), [rtree(rng, D, nc, d)], d, acts(D), chain=rtree(rng, D, nc, d), aown=True,
              shape=[nc] * D, snap=rng.choice((0, 1)))


def empty(n, d):
    return all(empty(p, d) for p in n["p"]) if n["k"] == "F" else n["v"] == d


def subs_ok(t, D):
    """Can the kind of payloads of a free fiber be told from what it stores?"""
    return D == 1 or (bool(t["c"]) and all(subs_ok(p, D - 1) for p in t["p"]))


if __name__ == "__main__":
    cfg = """SPECIFICATION Spec
CONSTANTS NC = 2
 Vals = {%s}
INVARIANTS WellFormedAlways ListedAlways Overridden UntouchedAlways NoLeftover NoStray InOrder
%sCHECK_DEADLOCK FALSE
"""
    vt.main("C05", gen, "Trace_C05",
            mc=[dict(name="populate-2x2", module="MC_Populate", cfg=cfg % ("0, 3", ""), args=("-workers", "2"), timeout=400),
                dict(name="populate-2x2-terminates", module="MC_Populate", cfg=cfg % ("0, 3", "PROPERTY Terminates\n"),
                     args=("-workers", "2"), timeout=800, thorough_only=True)],
            rule="programs of (nested) populate loops; distinct by destination, sources, bodies")
