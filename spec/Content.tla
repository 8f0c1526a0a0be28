------------------------------ MODULE Content ------------------------------
(* Equality, emptiness and counting of trees.  Two formulations: by the set of *)
(* (point, value) pairs, and by walking the two trees; MC_Content checks that   *)
(* they agree, that equality is an equivalence, and the laws of counting and    *)
(* pruning.                                                                   *)
EXTENDS FT

SameContent(a, da, b, db) == Content(a, da) = Content(b, db)
Count(n, d) == Cardinality(Content(n, d))
EmptyNode(n, d) == Content(n, d) = {}

(* walking: the non-empty elements of both, pairwise *)
RECURSIVE Walk(_, _, _, _)
Walk(a, da, b, db) ==
  IF a.k = "F" /\ b.k = "F"
  THEN LET ia == NonEmptyIdx(a, da) ib == NonEmptyIdx(b, db) IN
       Len(ia) = Len(ib) /\ \A j \in DOMAIN ia :
         a.c[ia[j]] = b.c[ib[j]] /\ Walk(a.p[ia[j]], da, b.p[ib[j]], db)
  ELSE a.k # "F" /\ b.k # "F" /\ a.v = b.v
RECURSIVE CountWalk(_, _)
CountWalk(n, d) == IF n.k # "F" THEN (IF n.v = d THEN 0 ELSE 1)
                   ELSE FoldLeft(LAMBDA acc, x : acc + CountWalk(x, d), 0, n.p)
=============================================================================
