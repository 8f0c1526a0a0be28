------------------------------- MODULE Alias -------------------------------
(* Objects, reachability and interference.  A heap maps an object to the set  *)
(* of objects it refers to and to a value; a side (operand or result) is a    *)
(* root object.  What a side shows is the part of the heap reachable from it. *)
EXTENDS Integers, FiniteSets

RECURSIVE ReachN(_, _, _)
ReachN(refs, S, n) == IF n = 0 THEN S ELSE ReachN(refs, S \cup UNION {refs[o] : o \in S}, n - 1)
Reach(refs, root) == ReachN(refs, {root}, Cardinality(DOMAIN refs))
View(refs, vals, root) == [o \in Reach(refs, root) |-> <<refs[o], vals[o]>>]

Range1(s) == {s[i] : i \in DOMAIN s}
Disjoint(a, b) == Range1(a) \cap Range1(b) = {}
=============================================================================
