---------------------------- MODULE MC_FTMachine ----------------------------
(* Design model: every history of mutating operations over small trees.       *)
(*  - the tree stays well-formed, whatever is applied (C01)                    *)
(*  - an operation that would break the coordinate order changes nothing (C01) *)
(*  - the tree refines a map m from points to values: writes through           *)
(*    references override exactly one point (C03), populate overrides exactly  *)
(*    the points written and leaves no default behind (C05)                    *)
(* All reachable trees with coordinates below NC and values up to MaxVal.       *)
EXTENDS FTMachine, TLC
CONSTANTS D, NC, MaxVal

VARIABLES t, m
vars == <<t, m>>
C == {<<i>> : i \in 0..(NC - 1)}
d0 == <<0, 1>>
V == {<<0, 1>>, <<2, 1>>}
W == [k : {"none"}, v : {d0}] \cup [k : {"set"}, v : V] \cup [k : {"add"}, v : {<<2, 1>>}]

Pts(h) == {p \in UNION {[1..n -> C] : n \in {h}} : TRUE}
RECURSIVE Paths(_, _)
Paths(n, h) == (* existing fibers *)
  IF n.k # "F" THEN {} ELSE {<<>>} \cup {<<n.c[i]>> \o q : i \in DOMAIN n.c, q \in {}} \cup
     UNION {{<<n.c[i]>> \o q : q \in Paths(n.p[i], h - 1)} : i \in DOMAIN n.c}

LeafFibers == {MkFiber(<<>>, <<>>, ""), MkFiber(<<<<0>>>>, <<Box(<<2, 1>>)>>, "i"),
               MkFiber(<<<<0>>, <<1>>>>, <<Box(<<2, 1>>), Box(<<0, 1>>)>>, "i"),
               MkFiber(<<<<1>>>>, <<Box(<<3, 1>>)>>, "i")}
Sources(h) == IF h = 1 THEN LeafFibers
              ELSE {EmptyFiber} \cup {MkFiber(<<<<0>>>>, <<x>>, "i") : x \in LeafFibers}
                   \cup {MkFiber(<<<<0>>, <<1>>>>, <<x, MkFiber(<<<<1>>>>, <<Box(<<3, 1>>)>>, "i")>>, "i") : x \in LeafFibers}
Elem(h) == IF h = 1 THEN {Box(v) : v \in V} ELSE LeafFibers

LeafActs == {<<[k |-> "skip"]>>, <<[k |-> "write", w |-> [k |-> "copy", v |-> d0]], [k |-> "skip"]>>,
             <<[k |-> "write", w |-> [k |-> "set", v |-> d0]], [k |-> "write", w |-> [k |-> "acc", v |-> d0]]>>}
Acts(h) == IF h = 1 THEN LeafActs
           ELSE {<<[k |-> "skip"]>>, <<[k |-> "clear"], [k |-> "assign"]>>}
                \cup {<<[k |-> "nest", sub |-> x]>> : x \in LeafActs}
                \cup {<<[k |-> "ref", pt |-> <<<<0>>>>, w |-> [k |-> "none", v |-> d0]]>>}

OpsAt(n, at, h) ==
       [o : {"ref"}, at : {at}, pt : Pts(h), w : W]
  \cup [o : {"append", "insert", "iol"}, at : {at}, c : C, x : Elem(h)]
  \cup [o : {"extend", "assign"}, at : {at}, x : Sources(h)]
  \cup [o : {"setitem"}, at : {at}, i : {0, 1, -1}, c : {<<>>} \cup C, x : Elem(h)]
  \cup [o : {"clear"}, at : {at}]
  \cup [o : {"populate"}, at : {at}, x : Sources(h), acts : Acts(h)]
  \cup [o : {"updcoords"}, at : {at}, depth : 0..(h - 1), fn : [k : {"rev"}, n : {NC - 1}] \cup [k : {"half"}, n : {0}]]
  \cup [o : {"shaperef"}, at : {at}, lo : {0}, hi : {NC}, st : {1},
        acts : {<<[k |-> "write", w |-> [k |-> "none", v |-> d0]], [k |-> "write", w |-> [k |-> "add", v |-> <<2, 1>>]]>>}]
Ops == UNION {OpsAt(ReadPoint(t, at), at, D - Len(at)) : at \in Paths(t, D)}

Small(n) == \A x \in Stored(n) : x[2][1] <= MaxVal /\ \A i \in DOMAIN x[1] : x[1][i][1] < NC

Init == t = EmptyFiber /\ m = {}
Next == \E op \in Ops :
             LET n == Step(t, D, d0, op) IN
             /\ Small(n)
             /\ t' = n
             /\ m' = IF op.o = "ref"
                     THEN LET p == op.at \o op.pt
                              old == {x \in m : x[1] = p}
                              v == WriteV(IF old = {} THEN d0 ELSE (CHOOSE x \in old : TRUE)[2], op.w, d0)
                          IN (m \ old) \cup (IF v = d0 THEN {} ELSE {<<p, v>>})
                     ELSE Content(n, d0)
Spec == Init /\ [][Next]_vars

RECURSIVE SizeOf(_)
SizeOf(n) == IF n.k # "F" THEN 1 ELSE FoldLeft(LAMBDA a, x : a + SizeOf(x), 1, n.p)

StaysWellFormed == WellFormed(t) /\ LeavesAt(t, D)
RefinesMap == Content(t, d0) = m
RejectedChangesNothing == \A op \in Ops : Violates(t, d0, op) => Step(t, D, d0, op) = t
(* what populate removes or keeps *)
PopulateKeeps ==
  (\A op \in {x \in Ops : x.o = "populate" /\ x.at = <<>>} :
       LET n == Step(t, D, d0, op)
           offered == NonEmptyCoordSet(op.x, d0) IN
       /\ \A i \in DOMAIN t.c : t.c[i] \notin offered => (Has(n, t.c[i]) /\ At(n, t.c[i]) = t.p[i])
       /\ \A i \in DOMAIN n.c : n.c[i] \in offered => ~IsEmptyTree(n.p[i], d0)
       /\ \A i \in DOMAIN n.c : n.c[i] \in offered \/ Has(t, n.c[i]))
=============================================================================
