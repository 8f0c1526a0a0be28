----------------------------- MODULE MC_Content -----------------------------
EXTENDS Content
CONSTANTS NC, Depth, Vals
VARIABLES a, b, da, db
Coords == [i \in 1..NC |-> <<i - 1>>]
SubIdx == SUBSET (1..NC)
SortedSeq(S) == SetToSortSeq(S, <)
RECURSIVE Trees(_)
Trees(D) ==
  LET sub == IF D = 1 THEN {Box(Val(v)) : v \in Vals} ELSE Trees(D - 1) IN
  UNION {{MkFiber([j \in 1..Cardinality(S) |-> Coords[SortedSeq(S)[j]]], q, IF S = {} THEN "" ELSE "i") :
            q \in [1..Cardinality(S) -> sub]} : S \in SubIdx}
All == Trees(Depth)
Defs == {Val(0), Val(1)}
Init == a \in All /\ b \in All /\ da \in Defs /\ db \in Defs
Spec == Init /\ [][UNCHANGED <<a, b, da, db>>]_<<a, b, da, db>>

WalkIsContent == Walk(a, da, b, db) <=> SameContent(a, da, b, db)
Symmetric == Walk(a, da, b, db) => Walk(b, db, a, da)
Reflexive == Walk(a, da, a, da)
Canonises == /\ SameContent(a, da, Prune(a, da), da)
             /\ Canonical(Prune(a, da), da)
             /\ (Walk(a, da, b, da) <=> Prune(a, da) = Prune(b, da))
Counts == /\ CountWalk(a, da) = Count(a, da)
          /\ (EmptyNode(a, da) <=> Count(a, da) = 0)
          /\ (EmptyNode(a, da) <=> IsEmptyTree(a, da))
=============================================================================
