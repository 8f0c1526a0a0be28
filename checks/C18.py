"""C18: format footprints add up."""
import copy as copymod
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vt
from ft import *
from xform import rand_tensor, rand_op, apply, after
from fibertree.model import Format


def make(ctx):
    """A tensor with integer coordinates, from whatever source."""
    rng = ctx.rng
    err, r = ctx.call(rand_tensor, rng, rng.choice((1, 2, 2, 3, 3)), None, rng.choice((0, 0, 0, 7)), ctx.scratch, None)
    if r is None:
        return None
    t, kind = r
    for _ in range(rng.choice((0, 0, 0, 1, 2))):
        op = rand_op(rng, t, only=["split", "swizzle", "swap", "merge", "deepcopy", "div"])
        if op is None or (op["o"] == "merge" and op["style"] == "tuple") or t.D > 4:
            continue
        err, R = ctx.call(apply, t.T, op)
        if err or not isinstance(R, Tensor):
            return None
        t = after(t, op, R)
    T = t.T
    if not all(isinstance(r, str) for r in T.getRankIds()) or any(s != "int" for s in t.styles):
        return None
    return T, t.d


def change(ctx, T, D, d):
    """Some updates."""
    rng = ctx.rng
    sh = T.getShape()
    for _ in range(rng.randint(0, 4)):
        pt = [rng.randrange(max(1, s)) for s in sh]
        k = rng.choice(["ref", "ref", "def", "clear", "iter", "mid", "populate", "shape"])

        def do():
            if k == "ref":
                x = T.getPayloadRef(*pt)
                if not isinstance(x, Fiber) and rng.random() < 0.8:
                    x <<= rng.randint(1, 5)
            elif k == "def":
                x = T.getPayloadRef(*pt)
                x <<= d
            elif k == "mid" and D > 1:
                T.getPayloadRef(*pt[:rng.randint(1, D - 1)])
            elif k == "clear" and D > 1:
                f = T.getPayload(*pt[:rng.randint(1, D - 1)])
                if isinstance(f, Fiber) and f.getOwner() is not None:
                    f.clear()
            elif k == "iter":
                for _ in T.getRoot().iterShapeRef():
                    break
            elif k == "populate":
                a = Fiber([rng.randrange(max(1, sh[0]))], [Fiber() if D > 1 else 1])
                for _, (z, _) in T.getRoot() << a:
                    if D == 1:
                        z <<= 3
            elif k == "shape":
                for _ in T.getRoot().iterShape():
                    pass
        T.setMutable(True)
        ctx.call(do)


def spec(rng, ids):
    sp, root = [], {}
    big = rng.choice((3, 40, 2000))
    for _ in ids:
        s = {}
        if rng.random() < 0.9:
            for f in ("rhbits", "fhbits", "cbits", "pbits"):
                if rng.random() < 0.75:
                    s[f] = rng.randint(0, big)
            if rng.random() < 0.8:
                s["format"] = rng.choice("CUU")
            if rng.random() < 0.4:
                s["layout"] = rng.choice(["contiguous", "interleaved"])
        sp.append(s)
    for f in ("hbits", "pbits"):
        if rng.random() < 0.6:
            root[f] = rng.randint(0, big)
    return sp, root


def one(ctx):
    rng = ctx.rng
    r = make(ctx)
    if r is None:
        return
    T, d = r
    ids = T.getRankIds()
    D = len(ids)
    root = T.getRoot()
    if not isinstance(root, Fiber):
        return
    early = None
    if rng.random() < 0.4 and T.getShape(authoritative=True) is not None:
        # a footprint asked for before the tensor changes
        sp, rt = spec(rng, ids)
        given = dict({i: copymod.deepcopy(s) for i, s in zip(ids, sp)}, root=dict(rt))
        err, F = ctx.call(Format, T, copymod.deepcopy(given))
        if not err:
            early = sp, rt, given, F
            for i in ids:
                ctx.call(F.getRank, i)
            ctx.call(F.getTensor), ctx.call(F.getFiber), ctx.call(F.getSubTree)
            for c in root.coords[:3]:
                ctx.call(F.getFiber, c), ctx.call(F.getSubTree, c)
    if early or rng.random() < 0.5:
        change(ctx, T, D, d)
    sh = T.getShape()
    tree = enc(root)
    if max(sh + [0]) > 40 or len(repr(tree)) > 8000:
        return
    sp, rt = spec(rng, ids)
    loose = False
    if T.getShape(authoritative=True) is None:
        # fibers of one rank may disagree on an undeclared shape
        ctx.notes["undeclared"] += 1
        loose = True
        for i, x in enumerate(sp):
            fs = [f for f in T.ranks[i].getFibers()]
            if x.get("format") == "U" and (i > 0 and sp[i - 1].get("format") == "U" or any(f.getShape(all_ranks=False) != sh[i] for f in fs)):
                x["format"] = "C"
    given = {i: copymod.deepcopy(s) for i, s in zip(ids, sp) if s or rng.random() < 0.5}
    if rt or rng.random() < 0.5:
        given["root"] = dict(rt)
    if early and not loose:
        sp, rt, given, F = early
        err = ""
    else:
        early = None
        err, F = ctx.call(Format, T, given)
    if not err and not early and rng.random() < 0.2:
        err, F = ctx.call(Format, T, given)      # a specification that has been filled in
    qs = []
    if not err:
        for _ in range(rng.randint(3, 10)):
            k = rng.choice(["rank", "root", "tensor", "fiber", "fiber", "sub", "sub", "sub", rng.choice(["cbits", "pbits", "fhbits", "rhbits", "coord", "payload", "elem", "format", "layout"])])
            q = dict(k=k, rank=rng.randint(1, D), pt=[], res=0, err="")
            i = ids[q["rank"] - 1]
            if k in ("fiber", "sub"):
                n = rng.randint(0, D - 1 if k == "fiber" else D)
                f = root
                pt = []
                for m in range(n):           # mostly where something is stored
                    cs = f.coords if isinstance(f, Fiber) else []
                    if not cs and loose:
                        break
                    if cs and (loose or rng.random() < 0.9):
                        c = rng.choice(cs)
                        f = f.payloads[f.coords.index(c)]
                    else:
                        c, f = rng.randrange(max(1, sh[m])), None
                    pt.append(c)
                if k == "sub" and loose and len(pt) < D and len(pt) and not isinstance(f, Fiber):
                    continue
                q["pt"] = [[c] for c in pt]
                fn = (lambda: F.getFiber(*pt)) if k == "fiber" else (lambda: F.getSubTree(*pt))
            elif k == "rank":
                fn = lambda: F.getRank(i)
            elif k in ("root", "tensor"):
                fn = F.getRoot if k == "root" else F.getTensor
            elif k in ("coord", "payload", "elem"):
                fn = lambda: F.getElem(i, k)
            else:
                g = dict(cbits=F.getCBits, pbits=F.getPBits, fhbits=F.getFHBits, rhbits=F.getRHBits, format=F.getFormat, layout=F.getLayout)[k]
                fn = lambda: {"C": 0, "U": 1, "contiguous": 0, "interleaved": 1}.get(g(i), g(i))
            q["err"], res = ctx.call(fn)
            q["res"] = 0 if q["err"] else int(res)
            qs.append(q)
    after_ = enc(root) == tree
    ctx.emit(dict(op="fp", err=err, tree=tree, sh=sh, sp=sp, root=rt, **{"def": val(d)}, qs=qs, after=after_))


def gen(ctx):
    for _ in range(ctx.share(14000, 140000)):
        one(ctx)


if __name__ == "__main__":
    def mm(nc, d, th):
        return dict(name=f"footprint-{nc}{d}", module="MC_Footprint", args=("-deadlock", "-workers", "2"), thorough_only=th,
                    cfg="SPECIFICATION Spec\nCONSTANTS NC = %d Depth = %d\nINVARIANTS Adds Dense AllU Recursive\n" % (nc, d))
    vt.main("C18", gen, "Trace_C18", mc=[mm(3, 1, False), mm(2, 2, False), mm(3, 2, True), mm(1, 3, False)], rule="tensors and specifications, all random")
