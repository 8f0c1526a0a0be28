------------------------------- MODULE FTGen -------------------------------
(* Behaviours of FTMachine for replay: run with TLC -simulate; every complete *)
(* behaviour is printed as JSON ("H|..."), with the operations applied and    *)
(* the tree the machine is in after each. Parameters are drawn with           *)
(* RandomElement so that larger bounds cost nothing.                          *)
EXTENDS FTMachine, TLC, Json
CONSTANTS NC, Len0, Depths, Defaults

MCDefaults == {<<0, 1>>, <<5, 1>>}
VARIABLES t, hist, D, d0
vars == <<t, hist, D, d0>>
R(S) == RandomElement(S)
RC(x) == <<R(0..(NC - 1))>>
RV(x) == R({<<0, 1>>, d0, <<1, 1>>, <<2, 1>>, <<3, 1>>, <<-2, 1>>})
RW(x) == [k |-> R({"none", "set", "add", "sub", "mul"}), v |-> RV(x)]
RECURSIVE RTree(_, _)
RTree(h, x) ==
  IF h = 0 THEN Box(RV(x))
  ELSE LET S == {c \in {<<i>> : i \in 0..(NC - 1)} : R(1..5) <= 2}
           cs == SetToSortSeq(S, LexLT)
       IN MkFiber(cs, [i \in DOMAIN cs |-> RTree(h - 1, cs[i])], IF cs = <<>> THEN "" ELSE "i")
RECURSIVE RPath(_, _)
RPath(n, h) ==
  IF h = 1 \/ n.c = <<>> \/ R(1..3) = 1 THEN <<>>
  ELSE LET i == R(DOMAIN n.c) IN <<n.c[i]>> \o RPath(n.p[i], h - 1)
RPt(h) == [i \in 1..h |-> RC(i)]
RECURSIVE RActs(_, _)
RAct(h, x, sub) ==
  IF h = 1
  THEN IF R(1..3) = 1 THEN [k |-> "skip"]
       ELSE [k |-> "write", w |-> [k |-> R({"none", "set", "add", "mul", "copy", "acc", "scale"}), v |-> RV(x)]]
  ELSE CASE R(1..6) = 1 -> [k |-> "skip"]
         [] R(1..6) = 1 -> [k |-> "clear"]
         [] R(1..6) = 1 -> [k |-> "assign"]
         [] R(1..6) = 1 -> [k |-> "ref", pt |-> RPt(h - 1), w |-> RW(x)]
         [] OTHER -> [k |-> "nest", sub |-> sub]
RActs(h, x) == LET sub == IF h > 1 THEN RActs(h - 1, x) ELSE <<>>
               IN [i \in 1..R(1..3) |-> RAct(h, <<x, i>>, sub)]

ROp(n, at, h) ==
  LET k == R({"ref", "ref", "append", "insert", "iol", "extend", "assign", "setitem", "clear",
              "populate", "populate2", "updcoords", "shaperef", "updpay", "get", "posref"}) IN
  CASE k = "ref" -> [o |-> "ref", at |-> at, pt |-> RPt(h), w |-> RW(at)]
    [] k = "get" -> [o |-> "get", at |-> at, pt |-> RPt(R(1..h)), alloc |-> TRUE]
    [] k = "posref" -> [o |-> "posref", at |-> at, c |-> RC(1)]
    [] k \in {"append", "insert", "iol"} -> [o |-> k, at |-> at, c |-> RC(1), x |-> RTree(h - 1, at)]
    [] k \in {"extend", "assign"} -> [o |-> k, at |-> at, x |-> RTree(h, at)]
    [] k = "setitem" -> [o |-> k, at |-> at, i |-> R(-3..3), c |-> R({<<>>, RC(1), RC(2)}), x |-> RTree(h - 1, at)]
    [] k = "clear" -> IF R(1..3) = 1 THEN [o |-> k, at |-> at] ELSE [o |-> "ref", at |-> at, pt |-> RPt(h), w |-> RW(at)]
    [] k \in {"populate", "populate2"} -> [o |-> "populate", at |-> at, x |-> RTree(h, at), acts |-> RActs(h, at)]
    [] k = "updcoords" -> [o |-> k, at |-> at, depth |-> R(0..(h - 1)),
                           fn |-> R({[k |-> "rev", n |-> NC - 1], [k |-> "half", n |-> 0], [k |-> "xor", n |-> 0],
                                     [k |-> "const", n |-> 1], [k |-> "pos", n |-> 1]})]
    [] k = "updpay" -> [o |-> k, at |-> at, depth |-> h - 1, w |-> [k |-> R({"add", "mul", "set"}), v |-> RV(at)]]
    [] k = "shaperef" ->
         LET lo == R(0..NC) IN
         [o |-> k, at |-> at, lo |-> lo, hi |-> R(lo..NC), st |-> R(1..2),
          acts |-> [i \in 1..R(1..2) |->
                      IF h = 1 THEN [k |-> "write", w |-> RW(i)]
                      ELSE [k |-> "ref", pt |-> RPt(h - 1), w |-> RW(i)]]]

Bounded(n) == \A x \in Stored(n) : x[2][1] \in -1000..1000 /\ \A i \in DOMAIN x[1] : x[1][i][1] \in 0..(NC + 1)
Init == t = EmptyFiber /\ hist = <<>> /\ D \in Depths /\ d0 \in Defaults
Start == /\ hist = <<>>
         /\ \E x \in {RTree(D, 0)} : t' = x /\ hist' = <<[o |-> "init", t |-> x, D |-> D, d |-> d0]>>
         /\ UNCHANGED <<D, d0>>
Go   == /\ Len(hist) \in 1..Len0
        /\ UNCHANGED <<D, d0>>
        /\ \E at \in {RPath(t, D)} :
           \E op \in {ROp(t, at, D - Len(at))} :
           \E n \in {Step(t, D, d0, op)} :
             IF Bounded(n)
             THEN t' = n /\ hist' = Append(hist, [op |-> op, t |-> n, viol |-> Violates(t, d0, op)])
             ELSE t' = EmptyFiber /\ hist' = Append(hist, [op |-> [o |-> "clear", at |-> <<>>], t |-> EmptyFiber, viol |-> FALSE])
Next == Start \/ Go
Spec == Init /\ [][Next]_vars
StaysWellFormed == WellFormed(t) /\ LeavesAt(t, D)
Emit == Len(hist) = Len0 + 1 => PrintT("H|" \o ToJson(hist))
=============================================================================
