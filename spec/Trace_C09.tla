----------------------------- MODULE Trace_C09 -----------------------------
(* Judge: rank transforms move every point to its image and nothing else.     *)
EXTENDS Transform, TraceBase
VARIABLE l

SigsAt(tree, r) == LET f == FibersAt(tree, r) IN {f[i].g : i \in {j \in DOMAIN f : f[j].c # <<>>}}

(* the coordinate structure expected at rank r (from 0) of the result *)
ExpectedSigs(e, r) ==
  LET a == e.a k == a.depth
      len(q) == LET f == FibersAt(e.pre, q) s == {Len(f[i].c[1]) : i \in {j \in DOMAIN f : f[j].c # <<>>}} IN
                IF s = {} THEN 1 ELSE CHOOSE n \in s : TRUE
  IN
  CASE a.o = "swizzle" -> SigsAt(e.pre, a.perm[r + 1])
    [] a.o = "swap" -> SigsAt(e.pre, IF r = k THEN k + 1 ELSE IF r = k + 1 THEN k ELSE r)
    [] a.o \in {"flatten", "merge"} ->
         IF r < k THEN SigsAt(e.pre, r)
         ELSE IF r > k THEN SigsAt(e.pre, r + a.levels)
         ELSE IF a.style \in {"tuple", "pair"}
              THEN {StyleSig(a.style, SumInts([i \in 1..(a.levels + 1) |-> len(k + i - 1)]))}
              ELSE IF a.style = "absolute" THEN SigsAt(e.pre, k + a.levels) ELSE {"i"}
    [] a.o = "unflatten" ->
         IF r < k THEN SigsAt(e.pre, r)
         ELSE IF r > k + a.levels THEN SigsAt(e.pre, r - a.levels)
         ELSE IF r < k + a.levels THEN {"i"} ELSE {StyleSig(a.style, len(k) - a.levels)}
    [] OTHER -> SigsAt(e.pre, r)

(* linear positions are only defined for coordinates inside the shapes *)
Linearizable(e) ==
  /\ Len(e.auth) = e.D
  /\ \A r \in e.a.depth..(e.a.depth + e.a.levels) :
       /\ Len(e.auth[r + 1]) = 1
       /\ LET f == FibersAt(e.pre, r) IN
          \A i \in DOMAIN f : \A j \in DOMAIN f[i].c : f[i].c[j][1] < e.auth[r + 1][1]

CheckMove(e) ==
  LET cont == Content(e.pre, e.d)
      D2 == RanksAfter(e.D, e.a)
      got == Content(e.res, e.d)
  IN
  IF e.err # "" THEN
    (* linear positions need the shapes, and Fiber.swapRanks needs a coordinate;   *)
    (* nothing else may be refused                                                 *)
    Clause("rejected", \/ e.a.style = "linear" /\ ~Linearizable(e)
                       \/ e.form = "fiber" /\ e.a.o = "swap" /\ e.pre.c = <<>>)
  ELSE IF e.a.style = "linear" /\ ~Linearizable(e) THEN {}
  ELSE
  Clause("well-formed", WellFormed(e.res)) \cup
  Clause("depth", LeavesAt(e.res, D2)) \cup
  (IF ~WellFormed(e.res) \/ ~LeavesAt(e.res, D2) THEN {}
   ELSE Clause("content", \/ got = Moved(cont, e.a, e.auth, e.d)
                          \/ got = MovedByLevel(cont, e.a, e.auth, e.d)) \cup
        Clause("structure", \A r \in 0..(D2 - 1) :
                 \A g \in SigsAt(e.res, r) : g \in ExpectedSigs(e, r)))

Verdict(e) ==
  CASE e.op = "roundtrip" ->
         IF e.err # "" THEN {"rejected"}
         ELSE Clause("restored", Content(e.res, e.d) = Content(e.pre, e.d)) \cup
              Clause("well-formed", WellFormed(e.res)) \cup
              Clause("equal", e.eq)
    [] OTHER -> CheckMove(e)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
