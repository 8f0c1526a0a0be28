----------------------------- MODULE Trace_C14 -----------------------------
(* Judge: rank ids, shapes, defaults, formats and active ranges follow the    *)
(* data.  Events carry everything observable about a tensor: k, tree, rid,    *)
(* shape, auth, dflt, fmt, mut, fib (attributes of every fiber, depth-first). *)
EXTENDS Attrs, TraceBase
VARIABLE l

AttrsAt(x, r) == SelectSeq(x.fib, LAMBDA f : f.d = r)

(* a coordinate inside a reported shape; an estimated shape of tuples bounds   *)
(* the largest coordinate                                                      *)
Within(c, s, auth) == IF auth \/ Len(c) = 1 THEN InShape(c, s) ELSE Len(c) = Len(s) /\ LexLE(c, s)
InsideShape(x) ==
  \A r \in 1..x.D : LET f == FibersAt(x.tree, r - 1) IN
    \A i \in DOMAIN f : \A j \in DOMAIN f[i].c : Within(f[i].c[j], x.shape[r], x.auth # <<>>)
InsideActive(x) ==
  \A r \in 0..(x.D - 1) : LET f == FibersAt(x.tree, r) at == AttrsAt(x, r) IN
    Len(f) = Len(at) /\ \A i \in DOMAIN f : \A j \in DOMAIN f[i].c : InRange1(f[i].c[j], at[i].lo, at[i].hi)

(* every fiber of a tensor reports its rank's attributes *)
FromRank(x) ==
  \A i \in DOMAIN x.fib : LET f == x.fib[i] r == f.d + 1 IN
    r <= x.D => /\ f.rid = x.rid[r] /\ f.fmt = x.fmt[r]
                /\ (x.auth # <<>> => f.au = x.auth[r])
                /\ (r = x.D => f.dv.v = x.dflt)

(* asking for the ranks one at a time, or some of them, gives the same answers *)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
ByName(e) ==
  Clause("shape-by-name", e.by.one = <<>> \/ (e.by.one = e.res.shape /\ e.by.some = Rev(e.res.shape)))
  \cup Clause("format-by-name", e.by.fmt = <<>> \/ e.by.fmt = e.res.fmt)
  \cup Clause("depth", e.by.depth = e.res.D)
(* iterating a fiber's active range is iterating its occupancy *)
SameIteration(e) == \A i \in DOMAIN e.by.it : e.by.it[i][1] = e.by.it[i][2]

Halo(e) == e.a.o = "split" /\ e.halo
Exempt(e) == Halo(e) \/ e.a.style = "relative"

Transform1(e) ==
  IF e.err # "" \/ e.pre.k # "T" THEN {} ELSE
  LET x == e.pre y == e.res a == e.a IN
  IF y.k # "T" \/ y.D # (CASE a.o = "split" -> x.D + 1 [] OTHER -> RanksAfter(x.D, a)) THEN {"ranks"} ELSE
  Clause("rank-ids", e.quoted \/ (\E r \in DOMAIN x.rid : x.rid[r] = <<"[">>) \/ (a.o = "unflatten" /\ Len(Names(x.rid[a.depth + 1])) <= a.levels)
                     \/ y.rid = IdsAfter(x.rid, a)) \cup
  Clause("shape", x.auth = <<>> \/ (a.o = "unflatten" /\ Len(x.auth[a.depth + 1]) <= a.levels)
                  \/ y.auth = ShapeAfter(x.auth, a)) \cup
  Clause("default", y.dflt = x.dflt) \cup
  Clause("formats", y.fmt = FormatsAfter(x.fmt, a)) \cup
  Clause("mutable", y.mut = x.mut) \cup
  Clause("fiber-attributes", FromRank(y)) \cup
  Clause("inside-shape", Exempt(e) \/ ~InsideShape(x) \/ InsideShape(y)) \cup
  Clause("inside-active", Exempt(e) \/ ~InsideShape(x) \/ ~InsideActive(x) \/ InsideActive(y)) \cup
  Clause("active-iteration", Exempt(e) \/ ~InsideShape(x) \/ ~InsideActive(x) \/ SameIteration(e)) \cup
  ByName(e)

Construct(e) ==
  IF e.err # "" THEN {"rejected"} ELSE
  LET y == e.res IN
  IF y.k # "T" \/ y.D # Len(e.want.rid) THEN {"ranks"} ELSE
  Clause("rank-ids", y.rid = e.want.rid) \cup
  Clause("shape", e.want.shape = <<>> \/ y.auth = e.want.shape) \cup
  Clause("default", y.dflt = e.d) \cup
  Clause("formats", y.fmt = [i \in DOMAIN y.rid |-> "C"]) \cup
  Clause("mutable", y.mut = e.want.mut) \cup
  Clause("fiber-attributes", FromRank(y)) \cup
  Clause("inside-shape", InsideShape(y)) \cup
  Clause("inside-active", InsideActive(y)) \cup
  Clause("active-iteration", SameIteration(e)) \cup
  ByName(e)

Lazy(e) ==
  IF e.err # "" THEN {"rejected"} ELSE
  (IF e.newid # <<>> THEN Clause("lazy-rank-id", e.rid = e.newid)
   ELSE IF e.kind = "project" /\ e.rid = <<"Unknown">> THEN Clause("KF:project-rank-id", e.rid = e.wantid)
   ELSE Clause("lazy-rank-id", e.rid = e.wantid)) \cup
  Clause("lazy-active-range",
    CASE e.kind = "project" ->
           IF e.interval # <<>> THEN e.lo = <<e.interval[1]>> /\ e.hi = <<e.interval[2]>>
           ELSE IF e.wantlo = e.wanthi THEN e.lo[1] >= e.hi[1]
           ELSE <<e.lo[1], e.hi[1]>> \in ProjRanges(e.wantlo[1], e.wanthi[1], e.fn)
      [] OTHER -> e.lo = e.wantlo /\ e.hi = e.wanthi)

(* a free fiber: each of its fibers has a shape and an active range of its own *)
Levels(x) == {x.fib[i].d : i \in DOMAIN x.fib}
OwnShapes(x) ==
  \A r \in Levels(x) : LET f == FibersAt(x.tree, r) at == AttrsAt(x, r) IN
    Len(f) = Len(at) /\ \A i \in DOMAIN f : at[i].au = <<>> \/ \A j \in DOMAIN f[i].c : InShape(f[i].c[j], at[i].au)
OwnActive(x) ==
  \A r \in Levels(x) : LET f == FibersAt(x.tree, r) at == AttrsAt(x, r) IN
    Len(f) = Len(at) /\ \A i \in DOMAIN f : \A j \in DOMAIN f[i].c : InRange1(f[i].c[j], at[i].lo, at[i].hi)
Covers(x, ss) ==
  \A r \in Levels(x) : LET f == FibersAt(x.tree, r) IN
    \A i \in DOMAIN f : f[i].c = <<>> \/ (r + 1 \in DOMAIN ss /\ \A j \in DOMAIN f[i].c : InShape(f[i].c[j], ss[r + 1]))
Loose(e) ==
  Clause("inside-shape", ~OwnShapes(e.pre) \/ Covers(e.pre, e.shapes[1])) \cup
  IF e.err # "" \/ e.res.k \notin {"F", "T"} THEN {} ELSE
  Clause("inside-shape", e.halo \/ ~OwnShapes(e.pre) \/ Covers(e.res, e.shapes[2])) \cup
  Clause("inside-shape", e.halo \/ ~OwnShapes(e.pre) \/ OwnShapes(e.res)) \cup
  Clause("inside-active", e.halo \/ ~OwnShapes(e.pre) \/ ~OwnActive(e.pre) \/ OwnActive(e.res))

Verdict(e) ==
  CASE e.op = "transform" -> Transform1(e)
    [] e.op = "construct" -> Construct(e)
    [] e.op = "join" -> Clause("fiber-attributes", e.res.k # "T" \/ FromRank(e.res)) \cup (IF e.res.k # "T" THEN {} ELSE ByName(e))
    [] e.op = "lazy" -> Lazy(e)
    [] e.op = "loose" -> Loose(e)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
