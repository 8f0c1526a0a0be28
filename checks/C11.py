"""C11: arithmetic on boxes, elements and fibers."""
import itertools
import operator as O
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vt
from machine import *

BIN = {"+": O.add, "-": O.sub, "*": O.mul, "/": O.truediv, "//": O.floordiv, "&": O.and_, "|": O.or_, "<<": O.lshift,
       "==": O.eq, "!=": O.ne, "<": O.lt, "<=": O.le, ">": O.gt, ">=": O.ge}
INP = {"+": O.iadd, "-": O.isub, "*": O.imul, "/": O.itruediv, "=": O.ilshift}
# operators that are not part of the documented set: an answer must be right, but there need not be one
MORE = {"%": O.mod, "**": O.pow, "^": O.xor, ">>": O.rshift}
MOREI = {"//": O.ifloordiv, "&": O.iand, "|": O.ior}


def raw(x):
    if isinstance(x, CoordPayload):
        x = x.payload
    if isinstance(x, Payload):
        x = x.value
    return x


def desc(x):
    x = raw(x)
    v = val(x)
    small = v is not None and abs(v[0]) < 2000 and v[1] < 2000
    return dict(r=repr(x), v=v if small else [0, 1], x=small)


def wrap(k, v):
    return {"b": lambda: Payload(v), "s": lambda: v, "e": lambda: CoordPayload(4, v)}[k]()


def box(ctx, o, form, x, y, inplace=False, may=False):
    fn = (BIN.get(o) or MORE.get(o)) if not inplace else (INP.get(o) or MOREI.get(o))
    pure = fn if not inplace else {"=": lambda a, b: b}.get(o) or BIN[o]
    werr, want = ctx.call(lambda: pure(x, y))
    a, b = wrap(form[0], x), wrap(form[1], y)
    bx = a.payload if isinstance(a, CoordPayload) else a
    da, db = desc(a), desc(b)
    err, r = ctx.call(lambda: fn(a, b))
    ev = dict(op="box", o=o, form=form, inplace=inplace, may=may, a=da, b=db, werr=werr, want=repr(want), err=err,
              got=desc(r), same=True, coord=True, a2=desc(a)["r"], b2=desc(b)["r"])
    if inplace:
        ev["same"] = r is a and (bx is a or a.payload is bx) and repr(raw(bx)) == repr(raw(r))
        ev["coord"] = form[0] != "e" or (r is a and a.coord == 4)
    elif o in ("==", "!=", "<", "<=", ">", ">=") and err == "":
        ev["got"]["r"] = repr(r)
    ctx.notes["box " + o + ("=" if inplace else "")] += 1
    ctx.emit(ev, key=(o, form, inplace, repr(x), repr(y)))


def fiberop(ctx, o, fs, s=None, d=(0, 1), h=1, same=False):
    """fs: constructors of two equal copies of the left operand, and of the right one."""
    mkf, mkg = fs
    f, f2 = mkf(), mkf()
    g, g2 = (mkg(), mkg()) if mkg else (None, None)
    if same:
        g, g2 = f, f2
    kind = "fiber" if mkg or same else "scalar"
    none = node("N")
    ev = dict(op="fiber", o=o, kind=kind, d=list(d), f=enc(f), g=enc(g) if g is not None else none, s=[0, 1], shape=[],
              zero=list(d) == [0, 1], refl=none, same=True)
    sh = f.getShape(all_ranks=True)
    ev["shape"] = list(sh) if isinstance(sh, (list, tuple)) else [sh]
    if s is not None:
        ev["s"] = list(val(Payload.get(s)))
    rhs = g if g is not None else s
    rhs2 = g2 if g2 is not None else (Payload(Payload.get(s)) if isinstance(s, Payload) else s)
    fn, inp = {"+": (O.add, O.iadd), "*": (O.mul, O.imul)}[o]
    err, r = ctx.call(lambda: fn(f, rhs))
    ev["err"], ev["res"] = err, enc(r)
    ev["f2"], ev["g2"] = enc(f), enc(g) if g is not None else none
    if kind == "scalar":
        err, r = ctx.call(lambda: fn(rhs, f))
        ev["err"] = ev["err"] or err
        ev["refl"] = enc(r)
    ierr, r = ctx.call(lambda: inp(f2, rhs2))
    ev["ierr"], ev["ires"] = ierr, enc(f2)
    ev["same"] = r is f2
    ev["g3"] = ev["g"] if same else (enc(g2) if g2 is not None else none)
    if s is not None and isinstance(s, Payload):
        ev["same"] = ev["same"] and list(val(rhs2.value)) == ev["s"]
    ctx.notes["fiber " + o + " " + kind] += 1
    ctx.emit(ev, key=(o, kind, repr(ev["f"]), repr(ev["g"]), ev["s"][0], ev["s"][1]) if ev["f"]["c"] else None)


def leafs(n, vals):
    out = [([], [])]
    for c in range(n):
        out = out + [(cs + [[c]], ps + [node("B", v=[v, 1])]) for cs, ps in out for v in vals]
    return [node("F", cs, ps, g="i" if cs else "") for cs, ps in out]


def maker(rng, t, D, d, shape, fmt=None, act=None):
    """A constructor of equal fibers with this tree; free or in a tensor."""
    free = D == 1 and rng.random() < 0.5
    decl = rng.random() < 0.7

    def go():
        if free:
            f = Fiber([crd(c) for c in t["c"]], [mk(p, d) for p in t["p"]], default=num(d),
                      **(dict(shape=shape[0]) if decl else {}))
        else:
            T = Tensor.fromFiber(["R%d" % i for i in range(D)], mk(t, d), default=num(d),
                                 **(dict(shape=list(shape)) if decl or D > 1 else {}))
            for i, x in enumerate(fmt or []):
                T.setFormat("R%d" % i, x)
            f = root_of(T)
        if act:
            f.setActive(act)
        return f
    return go


def gen(ctx):
    rng = ctx.rng
    ints = [-7, -2, -1, 0, 1, 2, 3, 6]
    flts = [-2.5, -0.5, 0.0, 0.25, 1.5, 4.0, 0.1]
    forms = ["bb", "bs", "sb", "eb", "be", "es", "se", "ee"]
    for x in ints + flts:
        for y in ints + flts:
            for o in BIN:
                for form in forms:
                    if ctx.mine() and (ctx.thorough or rng.random() < 0.5):
                        box(ctx, o, form, x, y)
            for o in list(INP) + list(MOREI):
                for form in ["bb", "bs", "be", "eb", "es", "ee"]:
                    if ctx.mine():
                        box(ctx, o, form, x, y, inplace=True, may=o in MOREI)
            for o in MORE:
                for form in forms:
                    if ctx.mine() and rng.random() < 0.2:
                        box(ctx, o, form, x, y, may=True)
    vals = [10 ** 20, -10 ** 12, 2 ** 40, 1e300, -1e-300, 1e17, 0.1, 1 / 3, float("inf"), True, False, 7, -3, 0, 0.0, -0.0]
    for _ in range(ctx.share(4000, 40000)):
        x, y = [rng.choice(vals) if rng.random() < 0.5 else rng.choice((rng.randint(-99, 99), rng.uniform(-9, 9)))
                for _ in range(2)]
        o = rng.choice(list(BIN))
        if o == "<<" and (not isinstance(y, int) or y > 99):
            y = rng.randint(0, 20)
        if rng.random() < 0.3:
            o = rng.choice(list(INP))
            box(ctx, o, rng.choice(["bb", "bs", "be", "eb", "es", "ee"]), x, y, inplace=True)
        else:
            box(ctx, o, rng.choice(forms), x, y)
    # all pairs of leaf fibers over 3 coordinates
    L = leafs(3, (0, 2, -2))
    for f in L:
        for g in L:
            for o in "+*":
                if ctx.mine() and (ctx.thorough or rng.random() < 0.4):
                    fiberop(ctx, o, (maker(rng, f, 1, [0, 1], [4]), maker(rng, g, 1, [0, 1], [4])))
        for s in (0, 2, -2, Payload(3), 0.5):
            for o in "+*":
                if ctx.mine():
                    fiberop(ctx, o, (maker(rng, f, 1, [0, 1], [4]), None), s=s)
    for _ in range(ctx.share(6000, 60000)):
        D = rng.choice((1, 1, 1, 2, 2, 3))
        nc = size(rng, D, (2, 3, 6) if D < 3 else (2,))
        d = [0, 1] if rng.random() < 0.85 else [5, 1]
        fmt = lambda: [rng.choice("CCU") for _ in range(D)] if rng.random() < 0.25 and not d[0] else None
        t, u = rtree(rng, D, nc, d), rtree(rng, D, nc, d)
        if rng.random() < 0.2:
            t, u = [quarter(rng, x) for x in (t, u)]
        sh = [nc + rng.randint(0, 2)] * D
        act = None
        if rng.random() < 0.15:
            lo = rng.randrange(nc)
            act = (lo, rng.randint(lo, nc))
        o = rng.choice("+*")
        if rng.random() < 0.55:
            same = rng.random() < 0.1
            F1, G1 = fmt(), fmt()
            if act and (F1 or G1):
                act = None
            fiberop(ctx, o, (maker(rng, t, D, d, sh, F1, act), None if same else maker(rng, u, D, d, sh, G1)), d=d, h=D,
                    same=same)
        else:
            s = rng.choice((0, 1, 2, -3, 0.5, Payload(2), Payload(0), Payload(-1.5)))
            F1 = fmt()
            if F1:
                act = None
            fiberop(ctx, o, (maker(rng, t, D, d, sh, F1, act), None), s=s, d=d, h=D)


def quarter(rng, n):
    if n["k"] == "F":
        return dict(n, p=[quarter(rng, p) for p in n["p"]])
    return dict(n, v=rng.choice((n["v"], [1, 2], [-3, 4])))


if __name__ == "__main__":
    cfg = "SPECIFICATION Spec\nCONSTANTS NC = %d\n MaxV = %d\n Defaults = {0, 2}\nINVARIANTS Agrees BoxKept OtherUntouched\n%s"
    vt.main("C11", gen, "Trace_C11",
            mc=[dict(name="arith-3", module="MC_Arith", cfg=cfg % (3, 2, "PROPERTY Terminates\n"), args=("-deadlock", "-workers", "2")),
                dict(name="arith-4", module="MC_Arith", cfg=cfg % (4, 2, ""), args=("-deadlock", "-workers", "4"), timeout=800,
                     thorough_only=True)],
            rule="operators on boxes and elements, distinct by operator, form and operands; fiber arithmetic, distinct by operands")
