------------------------------- MODULE Ranks -------------------------------
(* Rank bookkeeping: what the rank lists of a tensor must say about its tree. *)
(* A book is [D, root, lists, own, next, ids]: the number of ranks, the       *)
(* identity of the root, the fiber identities each rank lists, <<fiber, rank  *)
(* it reports as owner (0 none, -1 a foreign rank)>> pairs, the successor of  *)
(* each rank (0 none, -1 foreign), and the number of rank ids.                *)
EXTENDS FT

Ids(s) == {s[i] : i \in DOMAIN s}
FiberIds(n, d) == LET f == FibersAt(n, d) IN [j \in DOMAIN f |-> f[j].i]
NoDups(s) == Cardinality(Ids(s)) = Len(s)

ListsMatch(t, b) == \A i \in 1..b.D : Ids(b.lists[i]) = Ids(FiberIds(t, i - 1))
NoneStale(t, b) == \A i \in 1..b.D : Ids(b.lists[i]) \subseteq Ids(FiberIds(t, i - 1))
NoneMissing(t, b) == \A i \in 1..b.D : Ids(FiberIds(t, i - 1)) \subseteq Ids(b.lists[i])
EachOnce(b) == \A i \in 1..b.D : NoDups(b.lists[i])
Owners(t, b) ==
  \A i \in 1..b.D : \A f \in Ids(FiberIds(t, i - 1)) :
     \A k \in DOMAIN b.own : b.own[k][1] = f => b.own[k][2] = i
Chained(b) == \A i \in 1..b.D : b.next[i] = IF i < b.D THEN i + 1 ELSE 0
RootFirst(t, b) == b.D > 0 => /\ b.lists[1] = <<b.root>> /\ b.root = t.i
NoDeeper(t, b) == FibersAt(t, b.D) = <<>>

BookOK(t, b) == /\ NoneStale(t, b) /\ NoneMissing(t, b) /\ EachOnce(b) /\ Owners(t, b)
                /\ Chained(b) /\ RootFirst(t, b) /\ NoDeeper(t, b)
=============================================================================
