----------------------------- MODULE Trace_C08 -----------------------------
(* Judge: splits partition losslessly at the specified boundaries.            *)
(* Event "split": a, depth, d (leaf default), pre and res = [tree, fib] with  *)
(* fib the attributes of every fiber of the tree (found by identity).         *)
EXTENDS Split, TraceBase
VARIABLE l

Attr(fib, n) == fib[CHOOSE k \in DOMAIN fib : fib[k].i = n.i]

RECURSIVE SameTree(_, _)
SameTree(x, y) ==
  /\ x.k = y.k /\ x.c = y.c /\ x.v = y.v /\ Len(x.p) = Len(y.p)
  /\ \A j \in DOMAIN x.p : SameTree(x.p[j], y.p[j])

(* a division names a number of partitions: the step follows from the operand *)
Resolved(e, f, at) ==
  CASE e.a.kind = "div" -> {[e.a EXCEPT !.kind = "uniform", !.step = CeilDiv(at.sh[1], e.a.step)]}
    [] e.a.kind = "floordiv" ->
         {[e.a EXCEPT !.kind = "equal", !.step = CeilDiv(n, e.a.step)] :
            n \in {Len(f.c), Len(ActiveCoords(f, e.d, at.lo, at.hi))}}
    [] OTHER -> {e.a}

(* one fiber f against the upper fiber u, for a concrete split a *)
CheckSplit(e, f, u, a) ==
  LET at == Attr(e.pre.fib, f)
      x == IF ActiveCoords(f, e.d, at.lo, at.hi) = <<>> /\ a.kind \in {"equal", "unequal"} THEN <<>>
           ELSE IF NonEmptyCoords(f, e.d) = <<>> THEN <<>>
           ELSE Expected(f, e.d, a, at.lo, at.hi)
      Lowers == {k \in DOMAIN u.c : u.p[k].k = "F"}
  IN
  Clause("upper-coords", u.k = "F" /\ u.c = [k \in DOMAIN x |-> x[k].start]) \cup
  Clause("lower-fibers", Lowers = DOMAIN u.c) \cup
  (IF u.k # "F" \/ Len(u.c) # Len(x) \/ Lowers # DOMAIN u.c THEN {}
   ELSE Clause("lower-coords", \A k \in DOMAIN x : u.p[k].c = x[k].coords) \cup
        Clause("payloads", \A k \in DOMAIN x :
                  Len(u.p[k].p) = Len(x[k].orig) /\
                  \A j \in DOMAIN x[k].orig : SameTree(u.p[k].p[j], At(f, x[k].orig[j]))) \cup
        Clause("active-range", \A k \in DOMAIN x :
                  LET b == Attr(e.res.fib, u.p[k]) IN b.lo = x[k].lo /\ b.hi = x[k].hi))

CheckFiber(e, f, u) ==
  LET v == {CheckSplit(e, f, u, a) : a \in Resolved(e, f, Attr(e.pre.fib, f))} IN
  IF {} \in v THEN {} ELSE CHOOSE c \in v : TRUE

NothingBelow == [k |-> "F", c |-> <<>>, p |-> <<>>, v |-> <<0, 1>>, g |-> "", i |-> 0]

RECURSIVE Walk(_, _, _, _)
Walk(e, f, u, h) ==
  IF h = 0 THEN CheckFiber(e, f, u)
  ELSE Clause("above-coords", u.k = "F" /\ \A k \in DOMAIN u.c : Has(f, u.c[k])) \cup
       (IF u.k # "F" THEN {}
        ELSE UNION {Walk(e, f.p[k], IF Has(u, f.c[k]) THEN At(u, f.c[k]) ELSE NothingBelow, h - 1)
                      : k \in {j \in DOMAIN f.c : f.p[j].k = "F"}})

Verdict(e) ==
  IF e.err # "" THEN {"rejected"}
  ELSE Walk(e, e.pre.tree, e.res.tree, e.depth)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
