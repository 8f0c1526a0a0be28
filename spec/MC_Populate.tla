----------------------------- MODULE MC_Populate -----------------------------
(* Design model of populate as it is executed: an element is inserted before    *)
(* the body runs and removed after it if it was left at the default, level by   *)
(* level, with the fibers of the lower rank listed in and removed from their    *)
(* rank. Explored for every small destination and source and every choice of    *)
(* bodies. A fiber of the lower rank is identified by its coordinate.           *)
EXTENDS Populate, TLC
CONSTANTS NC, Vals     \* coordinates, leaf values written
d0 == <<0, 1>>
C == 0..(NC - 1)
LeafTrees == {MkFiber([i \in 1..Cardinality(S) |-> <<SetToSortSeq(S, <)[i]>>],
                      [i \in 1..Cardinality(S) |-> Box(<<f[SetToSortSeq(S, <)[i]], 1>>)], IF S = {} THEN "" ELSE "i") :
                S \in SUBSET C, f \in [C -> {0, 2}]}
Trees == {MkFiber([i \in 1..Cardinality(S) |-> <<SetToSortSeq(S, <)[i]>>],
                  [i \in 1..Cardinality(S) |-> f[SetToSortSeq(S, <)[i]]], IF S = {} THEN "" ELSE "i") :
                S \in SUBSET C, f \in [C -> LeafTrees]}
Canon == {t \in Trees : Canonical(t, d0)}

VARIABLES z, z0, a, listed, pc, oi, ii, w, offs
vars == <<z, z0, a, listed, pc, oi, ii, w, offs>>
(* pc: "outer" ready for the next outer coordinate, "body" in the outer body,    *)
(* "inner" in the inner loop between bodies, "ibody" in an inner body, "done"    *)
Pres(n) == Elements(n, d0)
OC == Pres(a)[oi].c
IE == Pres(Pres(a)[oi].p)
IC == IE[ii].c
Sub(c) == At(z, c)
SetSub(c, x) == [z EXCEPT !.p[Pos(z, c)] = x]

Init == /\ z \in Trees /\ a \in Canon /\ z0 = z
        /\ listed = {z.c[i] : i \in DOMAIN z.c}
        /\ pc = "outer" /\ oi = 0 /\ ii = 0 /\ w = <<>> /\ offs = {}
Offer == /\ pc = "outer" /\ oi < Len(Pres(a))
         /\ oi' = oi + 1
         /\ LET c == Pres(a)[oi + 1].c IN
            IF Has(z, c) THEN z' = z /\ listed' = listed
            ELSE z' = PutElem(z, c, EmptyFiber, "i") /\ listed' = listed \cup {c}
         /\ offs' = offs \cup {Pres(a)[oi + 1].c}
         /\ pc' = "body" /\ UNCHANGED <<z0, a, ii, w>>
Finish == /\ pc = "outer" /\ oi = Len(Pres(a)) /\ pc' = "done" /\ UNCHANGED <<z, z0, a, listed, oi, ii, w, offs>>
(* bodies of the outer loop *)
Nest == pc = "body" /\ pc' = "inner" /\ ii' = 0 /\ UNCHANGED <<z, z0, a, listed, oi, w, offs>>
Wipe == /\ pc = "body" /\ z' = SetSub(OC, EmptyFiber) /\ pc' = "retire"
        /\ w' = Append(w, [c |-> <<OC>>, v |-> d0]) /\ UNCHANGED <<z0, a, listed, oi, ii, offs>>
Touch == (* a reference created below and left at the default *)
         /\ pc = "body" /\ \E k \in C : z' = SetSub(OC, IF Has(Sub(OC), <<k>>) THEN Sub(OC) ELSE PutElem(Sub(OC), <<k>>, Box(d0), "i"))
         /\ pc' = "retire" /\ UNCHANGED <<z0, a, listed, oi, ii, w, offs>>
Skip == pc = "body" /\ pc' = "retire" /\ UNCHANGED <<z, z0, a, listed, oi, ii, w, offs>>
(* inner loop *)
IOffer == /\ pc = "inner" /\ ii < Len(IE)
          /\ ii' = ii + 1
          /\ z' = SetSub(OC, IF Has(Sub(OC), IE[ii + 1].c) THEN Sub(OC) ELSE PutElem(Sub(OC), IE[ii + 1].c, Box(d0), "i"))
          /\ pc' = "ibody" /\ UNCHANGED <<z0, a, listed, oi, w, offs>>
IDone == pc = "inner" /\ ii = Len(IE) /\ pc' = "retire" /\ UNCHANGED <<z, z0, a, listed, oi, ii, w, offs>>
IWrite == /\ pc = "ibody"
          /\ \E v \in Vals : /\ z' = SetSub(OC, PutElem(Sub(OC), IC, Box(<<v, 1>>), "i"))
                             /\ w' = Append(w, [c |-> <<OC, IC>>, v |-> <<v, 1>>])
          /\ pc' = "iretire" /\ UNCHANGED <<z0, a, listed, oi, ii, offs>>
ISkip == pc = "ibody" /\ pc' = "iretire" /\ UNCHANGED <<z, z0, a, listed, oi, ii, w, offs>>
IRetire == /\ pc = "iretire"
           /\ z' = SetSub(OC, IF At(Sub(OC), IC).v = d0 THEN DropAt(Sub(OC), IC) ELSE Sub(OC))
           /\ pc' = "inner" /\ UNCHANGED <<z0, a, listed, oi, ii, w, offs>>
Retire == /\ pc = "retire"
          /\ IF IsEmptyTree(Sub(OC), d0) THEN z' = DropAt(z, OC) /\ listed' = listed \ {OC}
             ELSE UNCHANGED <<z, listed>>
          /\ pc' = "outer" /\ UNCHANGED <<z0, a, oi, ii, w, offs>>
Next == Offer \/ Finish \/ Nest \/ Wipe \/ Touch \/ Skip \/ IOffer \/ IDone \/ IWrite \/ ISkip \/ IRetire \/ Retire
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

WellFormedAlways == WellFormed(z) /\ LeavesAt(z, 2)
ListedAlways == listed = {z.c[i] : i \in DOMAIN z.c}
(* the content is the previous one overridden by the writes so far *)
Applied(S, x) == IF Len(x.c) = 1 THEN {s \in S : s[1][1] # x.c[1]}
                 ELSE {s \in S : s[1] # x.c} \cup (IF x.v = d0 THEN {} ELSE {<<x.c, x.v>>})
Overridden == Content(z, d0) = FoldLeft(Applied, Content(z0, d0), w)
UntouchedAlways == \A i \in DOMAIN z0.c : z0.c[i] \notin offs => (Has(z, z0.c[i]) /\ At(z, z0.c[i]) = z0.p[i])
NoLeftover == pc = "done" => \A i \in DOMAIN z.c : z.c[i] \in offs => ~IsEmptyTree(z.p[i], d0)
NoStray == \A i \in DOMAIN z.c : z.c[i] \in offs \/ Has(z0, z.c[i])
InOrder == \A i \in 1..(Len(Pres(a)) - 1) : LexLT(Pres(a)[i].c, Pres(a)[i + 1].c)
Terminates == <>(pc = "done")
=============================================================================
