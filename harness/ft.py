"""Projection of the library's objects onto the specification's data model (FT.tla)."""
import os
import sys
from fractions import Fraction

REPO = os.environ.get("VT_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from fibertree import Fiber, Payload, Tensor, Rank, CoordPayload, Metrics  # noqa: E402
import fibertree  # noqa: E402
assert fibertree.__file__.startswith(REPO + "/"), fibertree.__file__

LIM = 2 ** 31 - 1


def flat(c):
    """Coordinate -> flat sequence of ints."""
    if isinstance(c, Payload):
        c = c.value
    if isinstance(c, (tuple, list)):
        r = []
        for x in c:
            r += flat(x)
        return r
    if isinstance(c, bool):
        return [int(c)]
    if isinstance(c, int) and abs(c) < LIM:
        return [c]
    if c == float("inf"):
        return [1 << 30]
    if isinstance(c, float) and c == c and c == int(c) and abs(c) < LIM:
        return [int(c)]
    return [-LIM]


def sig(c):
    """Structure of a coordinate."""
    if isinstance(c, Payload):
        return "P" + sig(c.value)
    if isinstance(c, tuple):
        return "(" + "".join(sig(x) for x in c) + ")"
    if isinstance(c, list):
        return "[" + "".join(sig(x) for x in c) + "]"
    if isinstance(c, int) and not isinstance(c, bool):
        return "i"
    return type(c).__name__


# When not empty: the values leaves may have, whatever they are; value number i is written <<i, 1>>
# (equal values have the same number, other numbers are moved out of the way).
VALUES = []
ALPHABETS = [["", "a", "b", "ab", "0"], [(0, 0), (0, 1), (1, 0), (1, 1), (0,)], [0.1, 0.2, 0.30000000000000004, 1e-300, -0.1, 1e300],
             [2 ** 80, 2 ** 80 + 1, -2 ** 90, 0.5, -1], ["", (0,), 0.1, 2 ** 70, "x", (1, (2, 3))], [False, True, 2, 0.5, -1], [(), (1,), "n", -0.5, 3]]


def exotic(rng, p):
    """Start (or end) drawing leaf values from an alphabet."""
    VALUES[:] = rng.choice(ALPHABETS) if rng.random() < p else []
    return bool(VALUES)


def val(x):
    """Scalar -> <<num, den>> or None."""
    if VALUES:
        for i, e in enumerate(VALUES):
            if type(x) in (type(e), bool, int, float) and type(e) in (type(x), bool, int, float) and x == e:
                return [i, 1]
        if isinstance(x, (int, float)):
            r = Fraction(x)
            return [100000 + r.numerator, r.denominator] if abs(r.numerator) < LIM - 100000 and r.denominator < LIM else None
        return None
    if isinstance(x, bool):
        return [int(x), 1]
    if isinstance(x, (int, float)):
        try:
            f = Fraction(x)
        except (ValueError, OverflowError):
            return None
        if abs(f.numerator) < LIM and f.denominator < LIM:
            return [f.numerator, f.denominator]
    try:
        import numpy as np
        if isinstance(x, np.generic):
            return val(x.item())
    except ImportError:
        pass
    return None


def node(k, c=(), p=(), v=(0, 1), g="", i=None):
    r = {"k": k, "c": list(c), "p": list(p), "v": list(v), "g": g}
    if i is not None:
        r["i"] = i
    return r


def enc(x, ids=None):
    """Encode any payload/fiber; with `ids` (a callable obj -> int) also identities."""
    i = ids(x) if ids else None
    if isinstance(x, Fiber):
        if x.isLazy():
            return node("L", i=i)
        cs, ps = x.coords, x.payloads
        sigs = {sig(c) for c in cs}
        g = "" if not sigs else (sigs.pop() if len(sigs) == 1 else "mixed")
        return node("F", [flat(c) for c in cs], [enc(p, ids) for p in ps], g=g, i=i)
    if isinstance(x, Payload):
        y = x.value
        if isinstance(y, Payload):
            return node("BB", p=[enc(y, ids)], i=i)
        if isinstance(y, Fiber):
            return node("BF", p=[enc(y, ids)], i=i)
        v = val(y)
        if v is not None:
            return node("B", v=v, i=i)
        if isinstance(y, tuple):
            return node("BT", p=[enc(z, ids) for z in y], i=i)
        return node("BX", g=type(y).__name__, i=i)
    if isinstance(x, CoordPayload):
        return node("CP", c=[flat(x.coord)], p=[enc(x.payload, ids)], g=sig(x.coord), i=i)
    if isinstance(x, (tuple, list)):
        return node("T", p=[enc(z, ids) for z in x], i=i)
    if isinstance(x, str):
        return node("Str", g=x, i=i)
    if x is None:
        return node("N", i=i)
    v = val(x)
    if v is not None:
        return node("S", v=v, i=i)
    return node("X", g=type(x).__name__, i=i)


class Ids:
    """Stable ordinals for object identities (keeps the objects alive)."""

    def __init__(self):
        self.m, self.keep = {}, []

    def __call__(self, o):
        k = id(o)
        if k not in self.m:
            self.m[k] = len(self.m) + 1
            self.keep.append(o)
        return self.m[k]


def encpairs(pairs, ids=None):
    """A yielded (coord, payload) sequence."""
    return [{"c": flat(c), "g": sig(c), "p": enc(p, ids)} for c, p in pairs]


# ---- building raw trees -------------------------------------------------

def build(t, default=0, shape=None):
    """Nested description {coord: subtree or scalar} (a list of pairs) -> Fiber.

    t is a list of (coord, sub) with sub a list (fiber) or a scalar (leaf).
    `shape`: list of shapes per level, or None for no declared shapes.
    """
    cs = [c for c, _ in t]
    ps = [build(s, default, shape[1:] if shape else None) if isinstance(s, list) else s for _, s in t]
    if shape:
        return Fiber(cs, ps, shape=shape[0], default=default)
    return Fiber(cs, ps, default=default)


def rand_tree(rng, depth, shape, dens=0.6, vals=(0, 1, 2, 3), p_empty=0.15):
    """Random nested description; explicit defaults and empty sub-fibers included."""
    out = []
    for c in range(shape[0]):
        if rng.random() < dens:
            if depth == 1:
                out.append((c, rng.choice(vals)))
            elif rng.random() < p_empty:
                out.append((c, []))
            else:
                out.append((c, rand_tree(rng, depth - 1, shape[1:], dens, vals, p_empty)))
    return out


def poke(x, n=12):
    """Ask a tensor or fiber about everything; the answers do not matter, only that they are not remembered."""
    def q(fn):
        try:
            fn()
        except Exception:
            pass

    def go(f, left):
        q(f.isEmpty), q(f.countValues), q(f.getDepth), q(f.minCoord), q(f.maxCoord), q(f.getActive), q(f.getDefault)
        q(f.getShape), q(lambda: f.getShape(all_ranks=False)), q(f.estimateShape), q(lambda: f == f), q(lambda: repr(f))
        q(lambda: f.getShape(authoritative=True)), q(lambda: len(f)), q(lambda: f.isLazy()), q(lambda: f.getCoords())
        for c in list(f.coords)[:4]:
            q(lambda: f.getPosition(c)), q(lambda: f.getPayload(c))
        q(lambda: [0 for _ in f.iterOccupancy(tick=False)]), q(lambda: [0 for _ in f.iterActive(tick=False)])
        q(f.nonEmpty)
        for p in list(f.payloads)[:4]:
            if isinstance(p, Fiber) and left > 0:
                left = go(p, left - 1)
        return left
    if isinstance(x, Tensor):
        q(x.getShape), q(x.countValues), q(lambda: repr(x)), q(lambda: x == x), q(x.getDefault), q(x.getDepth), q(x.getRankIds)
        q(lambda: [(r.getShape(), r.getFibers(), r.getRankIds(), str(r)) for r in x.ranks])
        x = x._root if hasattr(x, "_root") else x.getRoot()
    if isinstance(x, Fiber) and not x.isLazy():
        go(x, n)
