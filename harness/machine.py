"""Replay of operation histories (FTMachine / FTGen) on the real library."""
import json
import os
import re
import copy as copymod
import vt
from ft import *

GEN_CFG = """SPECIFICATION Spec
CONSTANTS
 NC = %d
 Len0 = %d
 Depths = {%s}
 Defaults <- MCDefaults
INVARIANTS StaysWellFormed Emit
CHECK_DEADLOCK FALSE
"""


def spec_histories(ctx, num, length, nc=4, depths=(1, 2, 3)):
    """Behaviours of the specification, generated by TLC's simulator."""
    rc, out = vt.tlc("FTGen", GEN_CFG % (nc, length, ",".join(map(str, depths))),
                     os.path.join(ctx.scratch, "gen"),
                     args=("-simulate", f"num={num}", "-depth", str(length + 3), "-workers", "1",
                           "-seed", str(ctx.seed * 1000 + ctx.shard)), timeout=300)
    hs = []
    for line in out.splitlines():
        if line.startswith('"H|'):
            hs.append(json.loads(json.loads(line)[2:]))
    assert rc == 0 and len(hs) == num, f"FTGen gave {len(hs)} histories, rc={rc}\n" + out[-3000:]
    return hs


def num(v):
    if VALUES:
        return VALUES[v[0] % len(VALUES)]
    return v[0] // v[1] if v[0] % v[1] == 0 else v[0] / v[1]


def crd(c):
    return c[0] if len(c) == 1 else tuple(c)


MADE = [0]


def mk(n, d, boxed=False):
    """Node -> object; every now and then one that had other values when it was first looked at."""
    if n["k"] == "F":
        MADE[0] += 1
        f = _node2obj(n, d)
        if MADE[0] % 17 == 0 and n["c"]:
            later(f, n, d)
        return f
    return _node2obj(n, d, boxed)


def later(f, n, d):
    todo = []

    def go(f):
        for i, p in enumerate(f.payloads):
            if isinstance(p, Fiber):
                go(p)
            elif isinstance(p, Payload) and type(p.value) in (int, float):
                todo.append((p, p.value))
                p <<= (num(d), 9, 1)[(i + MADE[0]) % 3]
    go(f)
    poke(f)
    for p, v in todo:
        p <<= v


def _node2obj(n, d, boxed=False):
    if n["k"] == "F":
        if n["c"] and MADE[0] % 3 == 0 and all(c == [i] for i, c in enumerate(n["c"])):
            # "dense": coordinates are left to the constructor
            return Fiber(payloads=[_node2obj(p, d) for p in n["p"]], default=num(d))
        return Fiber([crd(c) for c in n["c"]], [_node2obj(p, d) for p in n["p"]], default=num(d))
    if n["k"] == "B":
        return Payload(num(n["v"])) if boxed else num(n["v"])
    if n["k"] == "N":
        return None
    raise ValueError(n["k"])


def book(T, ids):
    """Projection of a tensor's rank bookkeeping and tree."""
    if T is None or not isinstance(root_of(T), Fiber):
        return None
    ranks = T.ranks
    idx = {id(r): i + 1 for i, r in enumerate(ranks)}
    lists = [[ids(f) for f in r.getFibers()] for r in ranks]
    own = []
    seen = set()

    def visit(f):
        if id(f) in seen or not isinstance(f, Fiber):
            return
        seen.add(id(f))
        o = f.getOwner()
        own.append([ids(f), 0 if o is None else idx.get(id(o), -1)])
        for p in f.payloads:
            q = Payload.get(p)
            if isinstance(q, Fiber):
                visit(q)
    visit(root_of(T))
    for r in ranks:
        for f in r.getFibers():
            visit(f)
    nxt = []
    for r in ranks:
        n = r.getNextRank()
        nxt.append(0 if n is None else idx.get(id(n), -1))
    return dict(D=len(ranks), root=ids(root_of(T)), lists=lists, own=own, next=nxt,
                ids=len(T.getRankIds()))


def root_of(T):
    """The root, even when the tensor's own consistency assertion fails."""
    try:
        return T.getRoot()
    except (AssertionError, IndexError):
        return T._root


class World:
    def __init__(self, tree, D, d, owned=True, shape=None, fmt=None):
        self.D, self.d = D, d
        self.ids = Ids()
        self.T = None
        f = mk(tree, d)
        if owned:
            kw = {}
            if shape:
                kw["shape"] = shape
            self.T = Tensor.fromFiber(["R%d" % i for i in range(D)], f, default=num(d), **kw)
            if fmt:
                for i, x in enumerate(fmt):
                    self.T.setFormat("R%d" % i, x)
        else:
            self.F = f
        self.refs = []
        self.fibs = []
        self.y = []
        self.src = None

    @staticmethod
    def adopt(x, D, d):
        """A world around an existing tensor or fiber."""
        w = World(node("F"), D, d, owned=False)
        if isinstance(x, Tensor):
            w.T = x
        else:
            w.F = x
        return w

    def root(self):
        return root_of(self.T) if self.T is not None else self.F

    def at(self, path):
        f = self.root()
        for c in path:
            f = Payload.get(f.payloads[f.coords.index(crd(c))])
        return f

    def level(self, f, op):
        """The rank to update, by name or by depth."""
        o = f.getOwner()
        if op.get("byid") and o is not None:
            ids_ = o.getRankIds()
            if op["depth"] < len(ids_) and isinstance(ids_[op["depth"]], str) and ids_.count(ids_[op["depth"]]) == 1:
                kw = dict(rankid=ids_[op["depth"]])
                if op["byid"] == 2:
                    # the name overrides whatever depth is given
                    kw["depth"] = (op["depth"] + 1) % 2
                return kw
        return dict(depth=op["depth"])

    def element(self, path, how):
        """The fiber at a path, reached by positions as an element (coordinate and payload)."""
        f, key = self.root(), []
        e = self.T if self.T is not None else f
        for c in path:
            i = f.coords.index(crd(c))
            f = Payload.get(f.payloads[i])
            key.append(i)
            if how == "elem":
                e = e[i]
        if how == "tuple" and path:
            e = e[tuple(key)]
        return e

    # -- writing through a reference -------------------------------------
    def write(self, r, w, a=None):
        k = w["k"]
        v = num(w["v"]) if "v" in w else None
        if w.get("box"):
            v = Payload(v)
        if k == "none":
            return
        if k == "set":
            r <<= v
        elif k == "add":
            r += v
        elif k == "sub":
            r -= v
        elif k == "mul":
            r *= v
        elif k == "copy":
            r <<= a
        elif k == "acc":
            r += a
        elif k == "scale":
            r *= a

    def body(self, z, a, act, pre, n):
        k = act["k"]
        if k in ("skip",):
            return
        if k == "write":
            self.write(z, act["w"], a)
        elif k == "nest":
            self.populate(z, a, act["sub"], pre)
        elif k == "ref":
            r = z.getPayloadRef(*[crd(c) for c in act["pt"]])
            if isinstance(r, Payload):
                self.write(r, act["w"])
        elif k == "assign":
            z <<= a
        elif k == "clear":
            z.clear()
        elif k == "read":
            str(z)
        # wild bodies
        elif k == "rootref":
            self.root().getPayloadRef(*[crd(c) for c in act["pt"]])
        elif k == "rootwrite":
            r = self.root().getPayloadRef(*[crd(c) for c in act["pt"]])
            r <<= 3
        elif k == "rootclear":
            self.root().clear()
        elif k == "raise":
            raise KeyError("body")
        elif k == "keep":
            (self.fibs if isinstance(z, Fiber) else self.refs).append(z)

    def populate(self, z, a, acts, pre):
        for i, (c, (zr, av)) in enumerate(z << a):
            self.y.append(dict(pre=pre, c=flat(c), a=enc(av, self.ids), z=enc(zr, self.ids)))
            act = acts[i % len(acts)]
            if act["k"] == "break":
                break
            self.body(zr, av, act, pre + [flat(c)], i)

    def source(self, x, how=None):
        """A source fiber for an operation: fresh, or part of another tensor."""
        f = mk(x, self.d)
        if how == "owned" and isinstance(f, Fiber):
            D = depth_of(x, 0)
            if D:
                T2 = Tensor.fromFiber(["R%d" % i for i in range(D)], f, default=num(self.d))
                self.src_T = T2
                f = T2.getRoot()
        self.src = f
        self.srcpre = enc(f, self.ids)
        return f

    def run(self, op):
        """Apply one operation. Returns the returned payload encoded (or none)."""
        o = op["o"]
        f = self.at(op["at"]) if "at" in op else None
        boxed = op.get("box", False)
        none = node("N")
        if o == "ref":
            tgt = self.T if op.get("via") == "tensor" and not op["at"] else f
            kw = {}
            if op.get("sp") is not None:
                kw["start_pos"] = op["sp"]
            r = tgt.getPayloadRef(*[crd(c) for c in op["pt"]], **kw)
            ret = enc(r, self.ids)
            if op.get("keep"):
                (self.fibs if isinstance(r, Fiber) else self.refs).append(r)
            if isinstance(r, Payload):
                self.write(r, dict(op["w"], box=boxed))
            return ret
        if o == "get":
            tgt = self.T if op.get("via") == "tensor" and not op["at"] else f
            kw = {}
            if op.get("sp") is not None:
                kw["start_pos"] = op["sp"]
            if not op.get("alloc", True):
                kw["allocate"] = False
                kw["default"] = None if op.get("dflt") is None else num(op["dflt"])
            r = tgt.getPayload(*[crd(c) for c in op["pt"]], **kw)
            return enc(r, self.ids)
        if o in ("pos", "posref"):
            g = f.getPosition if o == "pos" else f.getPositionRef
            r = g(crd(op["c"]), **({"start_pos": op["sp"]} if op.get("sp") is not None else {}))
            return enc(r)
        if o == "append":
            f.append(crd(op["c"]), self.elem(op, boxed))
            return none
        if o == "extend":
            f.extend(self.source(op["x"], op.get("how")))
            return none
        if o == "setitem":
            x = self.elem(op, boxed)
            if op.get("via") in ("elem", "tuple"):
                f = self.element(op["at"], op["via"])
            elif op.get("via") == "tensor":
                f = self.T if not op["at"] else f
            if op["c"]:
                f[op["i"]] = CoordPayload(crd(op["c"]), x)
            elif op.get("form") == "cp":
                f[op["i"]] = CoordPayload(None, x)
            else:
                f[op["i"]] = x
            return none
        if o == "clear":
            f.clear()
            return none
        if o == "assign":
            g = self.source(op["x"], op.get("how"))
            f <<= g
            return enc(f, self.ids)
        if o == "populate":
            self.populate(f, self.source(op["x"], op.get("how")), op["acts"], [])
            return none
        if o == "shaperef":
            lo, hi, st = op["lo"], op["hi"], op["st"]
            it = f.iterRangeShapeRef(lo, hi, st)
            if op.get("co") is not None:
                g = self.source(op["co"])
                it = Fiber.coiterRangeShapeRef([f, g], lo, hi, st)
            for i, (c, p) in enumerate(it):
                if op.get("co") is not None:
                    p = list(p)[0]
                self.y.append(dict(pre=[], c=flat(c), a=none, z=enc(p, self.ids)))
                act = op["acts"][i % len(op["acts"])]
                if isinstance(p, Payload):
                    self.write(p, act["w"])
                elif act["k"] == "ref":
                    self.body(p, None, act, [], i)
            return none
        if o == "updcoords":
            f.updateCoords(coordfn(op["fn"]), **self.level(f, op))
            return none
        if o == "updpay":
            def fn(i, c, p):
                if op.get("inplace"):
                    self.write(p, op["w"])
                    return p
                q = Payload(Payload.get(p))
                self.write(q, op["w"])
                return q if op.get("box") else q.value
            f.updatePayloads(fn, **self.level(f, op))
            return none
        if o == "insert":
            f.insert(crd(op["c"]), self.elem(op, boxed))
            return none
        if o == "iol":
            r = f.insertOrLookup(crd(op["c"]), self.elem(op, boxed))
            return enc(r, self.ids)
        # ---- operations judged for their invariants only
        if o == "iadd" or o == "imul":
            x = num(op["x"]["v"]) if op["x"]["k"] == "B" else self.source(op["x"], op.get("how"))
            if o == "iadd":
                f += x
            else:
                f *= x
            return enc(f, self.ids)
        if o == "refwrite":
            r = self.refs[op["n"] % len(self.refs)]
            self.write(r, op["w"])
            return enc(r, self.ids)
        if o == "fibref":
            r = self.fibs[op["n"] % len(self.fibs)]
            r.getPayloadRef(*[crd(c) for c in op["pt"]])
            return none
        if o == "itemop":
            if op.get("via") in ("elem", "tuple"):
                f = self.element(op["at"], op["via"])
            if op["w"]["k"] == "add":
                f[op["i"]] += num(op["w"]["v"])
            else:
                f[op["i"]] *= num(op["w"]["v"])
            return none
        if o == "setroot":
            self.T.setRoot(self.source(op["x"], op.get("how")))
            return none
        if o == "deepcopy":
            self.T = copymod.deepcopy(self.T)
            return none
        if o == "moveup":          # store an existing sub-fiber elsewhere
            g = self.at(op["from"])
            if op["as"] == "append":
                f.append(crd(op["c"]), g)
            elif op["as"] == "setitem":
                f[op["i"]] = g
            elif op["as"] == "assign":
                f <<= g
            elif op["as"] == "extend":
                f.extend(g)
            elif op["as"] == "root":
                self.T.setRoot(g)
            return none
        if o == "updpayfib":       # interior payload update
            kind = op["kind"]

            def fn(i, c, p):
                if kind == "same":
                    return p
                if kind == "copy":
                    return copymod.deepcopy(p)
                if kind == "new":
                    return mk(op["x"], self.d)
                if kind == "nonempty":
                    return p.nonEmpty()
                if kind == "clear":
                    p.clear()
                    return p
            f.updatePayloads(fn, depth=op["depth"])
            return none
        if o == "loopwrite":       # write while iterating without references
            for c, p in f:
                self.body(p, p, op["act"], [], 0)
            return none
        if o == "print":
            str(f), repr(f)
            return none
        raise ValueError(o)

    def elem(self, op, boxed):
        x = op["x"]
        if x["k"] == "F":
            return self.source(x, op.get("how"))
        return mk(x, self.d, boxed)


def depth_of(n, h):
    """Depth of a tree description if its leaves tell it, else 0."""
    if n["k"] != "F":
        return h
    for p in n["p"]:
        r = depth_of(p, h + 1)
        if r:
            return r
    return 0


def coordfn(fn):
    k, n = fn["k"], fn.get("n", 0)
    return {"shift": lambda i, c, p: c + n, "rev": lambda i, c, p: n - c, "scale": lambda i, c, p: c * n,
            "half": lambda i, c, p: c // 2, "const": lambda i, c, p: n,
            "xor": lambda i, c, p: c + 1 if c % 2 == 0 else c - 1,
            "pos": lambda i, c, p: i + n}[k]


def step(ctx, w, op, exact=True, hid=0):
    """Run one operation in world w and emit the event."""
    op = {k: v for k, v in op.items() if v is not None}
    w.y = []
    w.src = w.srcpre = None
    if ctx.rng.random() < 0.1:
        poke(w.T if w.T is not None else w.root())
    pre = enc(w.root(), w.ids)
    b1 = book(w.T, w.ids)
    err, ret = ctx.call(w.run, op)
    post = enc(w.root(), w.ids)
    ev = dict(op=op["o"], a=op, D=w.D, d=list(w.d), owned=w.T is not None, exact=exact, err=err,
              ret=ret if ret is not None else node("N"), pre=pre, post=post, y=w.y,
              src=[] if w.src is None else [w.srcpre, enc(w.src, w.ids)],
              book=[] if w.T is None else [b1, book(w.T, w.ids)], hid=hid)
    ctx.emit(ev, key=(repr(op), repr(pre)) if pre["c"] else None)
    return err


def replay_spec(ctx, hists, vary=True):
    """Replay behaviours of the specification."""
    rng = ctx.rng
    for n, h in enumerate(hists):
        D, d = h[0]["D"], h[0]["d"]
        owned = not (D == 1 and rng.random() < 0.4)
        w = World(h[0]["t"], D, d, owned=owned, shape=[6] * D if rng.random() < 0.5 else None)
        ctx.notes["histories"] += 1
        ctx.emit(dict(op="start", a=dict(o="start"), D=D, d=d, owned=owned, exact=True, err="",
                      ret=node("N"), pre=enc(w.root(), w.ids), post=enc(w.root(), w.ids), y=[], src=[],
                      book=[] if w.T is None else [book(w.T, w.ids)] * 2, hid=n))
        for st in h[1:]:
            op = dict(st["op"])
            if vary:
                decorate(rng, op, w)
            step(ctx, w, op, hid=n)
            # the specification's behaviour is defined from its own state: go on from there
            want = st["t"]
            if not same(w.root(), want):
                ctx.notes["diverged"] += 1
                break


def same(f, n):
    if n["k"] == "F":
        return isinstance(f, Fiber) and [flat(c) for c in f.coords] == n["c"] and len(f.payloads) == len(n["p"]) \
            and all(same(p, q) for p, q in zip(f.payloads, n["p"]))
    return isinstance(f, Payload) and val(f.value) == n["v"]


def decorate(rng, op, w):
    """Choices that must not matter: boxing, ownership of the source, entry point."""
    if rng.random() < 0.4:
        op["box"] = True
    if "x" in op and op["x"]["k"] == "F" and rng.random() < 0.3:
        op["how"] = "owned"
    if op["o"] in ("ref", "get") and rng.random() < 0.5 and w.T is not None:
        op["via"] = "tensor"
    if op["o"] == "updpay" and rng.random() < 0.3:
        op["inplace"] = True
    if op["o"] in ("updcoords", "updpay") and rng.random() < 0.3:
        op["byid"] = rng.choice((1, 2))
    if op["o"] == "setitem" and not op["c"] and rng.random() < 0.3:
        op["form"] = "cp"
    if op["o"] in ("setitem", "itemop") and rng.random() < 0.4:
        op["via"] = rng.choice(("tensor", "elem", "elem", "tuple")) if w.T is not None else rng.choice(("elem", "tuple"))

# ---- histories beyond the generator's alphabet ------------------------------

def size(rng, D, usual, p=0.05):
    """Coordinates per rank: usually few, sometimes enough for long runs."""
    if rng.random() < p:
        return rng.choice({1: (9, 12, 17, 33, 9, 12, 17, 33, 9, 12, 17, 33, 70, 135), 2: (6, 9, 10, 6, 9, 10, 18), 3: (5,)}.get(D, (3,)))
    return rng.choice(usual)


def rtree(rng, h, nc, d, dens=None):
    if h == 0:
        return node("B", v=rng.choice([d, [0, 1], [1, 1], [2, 1], [3, 1], [-2, 1]]))
    if h == 1 and nc > 8 and rng.random() < 0.6:
        # long runs of absent, explicit default and other elements
        cs, ps, c = [], [], 0
        while c < nc:
            k, n = rng.choice("ADVM"), rng.randint(1, nc)
            for c in range(c, min(nc, c + n)):
                if k != "A":
                    cs.append([c])
                    ps.append(node("B", v=d) if k == "D" else rtree(rng, 0, nc, d) if k == "M" else node("B", v=[c + 1, 1]))
            c += 1
        return node("F", cs, ps, g="i" if cs else "")
    dens = rng.choice((0.0, 0.3, 0.5, 0.8)) if dens is None else dens
    cs = [[c] for c in range(nc) if rng.random() < dens]
    return node("F", cs, [rtree(rng, h - 1, nc, d, None if h > 1 else dens) for _ in cs], g="i" if cs else "")


def rpath(rng, w):
    path, f, h = [], w.root(), w.D
    while h > 1 and f.coords and rng.random() < 0.6:
        i = rng.randrange(len(f.coords))
        path.append(flat(f.coords[i]))
        f = f.payloads[i]
        h -= 1
    return path, f, h


def rw(rng, d):
    return dict(k=rng.choice(["none", "set", "add", "sub", "mul"]), v=rng.choice([d, [0, 1], [1, 1], [2, 1], [-3, 1]]))


WILD = ["skip", "write", "nest", "ref", "assign", "clear", "rootref", "rootwrite", "raise", "break", "keep", "read",
        "rootclear"]


def racts(rng, h, D, nc, d):
    out = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(WILD)
        if k == "raise" and rng.random() < 0.6:
            k = "keep"
        if h == 1 and k in ("nest", "ref", "assign", "clear"):
            k = "write"
        if h > 1 and k == "write":
            k = "nest"
        a = dict(k=k)
        if k == "write":
            a["w"] = rng.choice([dict(k="copy"), dict(k="acc"), rw(rng, d), rw(rng, d)])
        if k == "nest":
            a["sub"] = racts(rng, h - 1, D, nc, d)
        if k == "ref":
            a["pt"] = [[rng.randrange(nc)] for _ in range(h - 1)]
            a["w"] = rw(rng, d)
        if k in ("rootref", "rootwrite"):
            a["pt"] = [[rng.randrange(nc)] for _ in range(D)]
        out.append(a)
    return out


def wild_op(rng, w, nc):
    at, f, h = rpath(rng, w)
    d = w.d
    n = len(f.coords)
    k = rng.choice(["ref", "ref", "populate", "populate", "populate", "append", "extend", "setitem", "iadd", "imul",
                    "refwrite", "fibref", "itemop", "setroot", "deepcopy", "moveup", "moveup", "updpayfib",
                    "loopwrite", "clear", "shaperef", "updcoords", "assign", "print", "get", "pos", "posref",
                    "insert", "iol"])
    op = dict(o=k, at=at)
    how = rng.choice([None, None, "owned"])
    c = [rng.randrange(nc + 1)]
    if k == "ref":
        op.update(pt=[[rng.randrange(nc)] for _ in range(rng.randint(1, h))], w=rw(rng, d), keep=True,
                  box=rng.random() < 0.4)
    elif k == "get":
        op.update(pt=[[rng.randrange(nc)] for _ in range(rng.randint(1, h))])
    elif k in ("pos", "posref"):
        op.update(c=[rng.randrange(nc)])
    elif k == "populate":
        op.update(x=rtree(rng, h, nc, d), acts=racts(rng, h, w.D, nc, d), how=how)
    elif k in ("append", "insert", "iol"):
        op.update(c=c, x=rtree(rng, h - 1, nc, d), how=how, box=rng.random() < 0.4)
    elif k in ("extend", "assign"):
        op.update(x=rtree(rng, h, nc, d), how=how)
        if k == "extend" and rng.random() < 0.5:
            op["x"]["c"] = [[q[0] + nc] for q in op["x"]["c"]]
    elif k == "setitem":
        op.update(i=rng.randint(-n - 1, n), c=rng.choice([[], c]), how=how,
                  x=rtree(rng, h - 1, nc, d) if rng.random() < 0.85 else node("N"))
        op["via"] = rng.choice(("", "", "elem", "tuple", "tensor" if w.T is not None else ""))
    elif k in ("iadd", "imul"):
        if h == 1 and rng.random() < 0.5:
            op["x"] = node("B", v=rng.choice([d, [0, 1], [2, 1]]))
        else:
            op["x"] = rtree(rng, h, nc, d)
    elif k == "refwrite":
        if not w.refs:
            return None
        op = dict(o=k, n=rng.randrange(99), w=rw(rng, d))
    elif k == "fibref":
        if not w.fibs:
            return None
        m = rng.randrange(99)
        g = w.fibs[m % len(w.fibs)]
        op = dict(o=k, n=m, pt=[[rng.randrange(nc)]])
    elif k == "itemop":
        if h != 1 or not n:
            return None
        op.update(i=rng.randrange(-n, n), w=dict(k=rng.choice(["add", "mul"]), v=[2, 1]))
        op["via"] = rng.choice(("", "elem", "tuple"))
    elif k == "setroot":
        if w.T is None:
            return None
        op = dict(o=k, x=rtree(rng, w.D, nc, d), how=how)
    elif k == "deepcopy":
        if w.T is None or rng.random() < 0.5:
            return None
        op = dict(o=k)
    elif k == "moveup":
        # another existing fiber of the same height (possibly the fiber itself)
        p2, f2, h2 = rpath(rng, w)
        if w.T is None:
            return None
        a = rng.choice(["append", "setitem", "assign", "extend", "root"])
        if a in ("append", "setitem"):
            if h2 != h - 1 or (a == "setitem" and not n) or at[:len(p2)] == p2:
                return None
            op.update(c=c, i=rng.randrange(n) if n else 0)
        elif a in ("assign", "extend"):
            if h2 != h:
                return None
        else:
            if h2 != w.D:
                return None
        op["from"] = p2
        op["as"] = a
    elif k == "updpayfib":
        if h < 2:
            return None
        dep = rng.randint(0, h - 2)
        op.update(depth=dep, kind=rng.choice(["same", "copy", "new", "nonempty", "clear"]), x=rtree(rng, h - dep - 1, nc, d))
    elif k == "loopwrite":
        op["act"] = dict(k="write", w=rw(rng, d)) if h == 1 else \
            rng.choice([dict(k="clear"), dict(k="ref", pt=[[rng.randrange(nc)] for _ in range(h - 1)], w=rw(rng, d))])
    elif k == "shaperef":
        lo = rng.randint(0, nc)
        op.update(lo=lo, hi=rng.randint(lo, nc), st=rng.randint(1, 2), acts=racts(rng, h, w.D, nc, d))
        for a in op["acts"]:
            a.setdefault("w", rw(rng, d))
            if h == 1:
                a["w"] = rw(rng, d)
            else:
                a["k"] = "ref"
                a["pt"] = [[rng.randrange(nc)] for _ in range(h - 1)]
        if rng.random() < 0.4:
            op["co"] = rtree(rng, h, nc, d)
    elif k == "updcoords":
        op["byid"] = rng.choice((0, 0, 0, 0, 0, 1, 2))
        op.update(depth=rng.randint(0, h - 1),
                  fn=rng.choice([dict(k="rev", n=nc), dict(k="half", n=0), dict(k="xor", n=0), dict(k="shift", n=1),
                                 dict(k="const", n=1)]))
    elif k == "clear" and not at and rng.random() < 0.6:
        return None
    return op


def emit_start(ctx, w, hid):
    ctx.notes["histories"] += 1
    ctx.emit(dict(op="start", a=dict(o="start"), D=w.D, d=list(w.d), owned=w.T is not None, exact=True, err="",
                  ret=node("N"), pre=enc(w.root(), w.ids), post=enc(w.root(), w.ids), y=[], src=[],
                  book=[] if w.T is None else [book(w.T, w.ids)] * 2, hid=hid))


def found(ctx, rng):
    """A world around a tensor from any constructor, perhaps transformed; None if the draw does not fit."""
    import xform
    err, r = ctx.call(xform.rand_tensor, rng, rng.choice((1, 2, 2, 3)), None, None, ctx.scratch)
    if r is None:
        return None
    t, kind = r
    for _ in range(rng.choice((0, 0, 1, 2))):
        op = xform.rand_op(rng, t, only=["split", "split", "div", "swizzle", "swap", "flatten", "unflatten", "merge", "updcoords",
                                         "updpay", "deepcopy"])
        if op is None:
            continue
        err, R = ctx.call(xform.apply, t.T, op)
        if err or not isinstance(R, Tensor):
            return None
        t = xform.after(t, op, R)
    if any(x != "int" for x in t.styles) or t.D > 4 or not isinstance(root_of(t.T), Fiber):
        return None
    x = t.T
    if rng.random() < 0.15:
        x = copymod.deepcopy(x)
    elif rng.random() < 0.1 and t.D == 1:
        x = root_of(x).copy(preserve_owner=False)
    return World.adopt(x, t.D, [t.d, 1])


def wild_histories(ctx, num, length):
    rng = ctx.rng
    for hid in range(num):
        D = rng.choice((1, 1, 2, 2, 2, 3, 3))
        nc = rng.choice((2, 3, 4))
        d = rng.choice(([0, 1], [0, 1], [5, 1]))
        owned = D > 1 or rng.random() < 0.7
        w = found(ctx, rng) if rng.random() < 0.35 else None
        if w is None:
            w = World(rtree(rng, D, nc, d), D, d, owned, shape=[nc + 1] * D if rng.random() < 0.5 else None,
                      fmt=[rng.choice("CCU") for _ in range(D)] if owned and rng.random() < 0.3 else None)
        emit_start(ctx, w, hid)
        for _ in range(length):
            try:
                op = wild_op(rng, w, nc)
            except (AttributeError, TypeError, ValueError, IndexError, KeyError):
                ctx.notes["broken_trees"] += 1      # the last event shows a tree that is not well-formed
                break
            if op is not None:
                step(ctx, w, op, exact=False, hid=hid)
                if len(repr(enc(w.root()))) > 20000:
                    break


_MC = """SPECIFICATION Spec
CONSTANTS
 D = %d
 NC = %d
 MaxVal = %d
INVARIANTS StaysWellFormed RefinesMap RejectedChangesNothing PopulateKeeps
CHECK_DEADLOCK FALSE
"""
MC_MACHINE = [dict(name="machine-1rank", module="MC_FTMachine", cfg=_MC % (1, 3, 4)),
              dict(name="machine-2rank", module="MC_FTMachine", cfg=_MC % (2, 2, 3)),
              dict(name="machine-1rank-4coords", module="MC_FTMachine", cfg=_MC % (1, 4, 6), thorough_only=True),
              dict(name="machine-2rank-6values", module="MC_FTMachine", cfg=_MC % (2, 2, 5), thorough_only=True,
                   args=("-workers", "4"), timeout=800)]
