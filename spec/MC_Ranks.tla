------------------------------ MODULE MC_Ranks ------------------------------
(* Design model of the bookkeeping: fibers (identities) are attached to and   *)
(* removed from a tree while every rank keeps a list that is updated at each  *)
(* step only.  The invariant is that the lists always mirror the tree.        *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Fibers, Depth
VARIABLES parent, depth, lists
vars == <<parent, depth, lists>>
None == "none"
Root == CHOOSE f \in Fibers : TRUE
(* parent[f] = the fiber holding f; None for the root and for free fibers *)
Init == /\ parent = [f \in Fibers |-> None]
        /\ depth = [f \in Fibers |-> IF f = Root THEN 1 ELSE 0]
        /\ lists = [i \in 1..Depth |-> IF i = 1 THEN {Root} ELSE {}]
InTree(f) == depth[f] > 0
Kids(f) == {g \in Fibers : parent[g] = f}
RECURSIVE Below(_)
Below(f) == {f} \cup UNION {Below(g) : g \in Kids(f)}
(* depth of every fiber below f once f stands at depth k *)
RECURSIVE DepthIn(_, _, _)
DepthIn(f, g, k) == IF g = f THEN k ELSE 1 + DepthIn(f, parent[g], k)
(* a free subtree is stored in a fiber of the tree: it joins the lists below *)
Attach(p, f) ==
  /\ InTree(p) /\ depth[p] < Depth /\ ~InTree(f) /\ parent[f] = None
  /\ \A g \in Below(f) : DepthIn(f, g, depth[p] + 1) <= Depth
  /\ parent' = [parent EXCEPT ![f] = p]
  /\ depth' = [g \in Fibers |-> IF g \in Below(f) THEN DepthIn(f, g, depth[p] + 1) ELSE depth[g]]
  /\ lists' = [i \in 1..Depth |-> lists[i] \cup {g \in Below(f) : DepthIn(f, g, depth[p] + 1) = i}]
(* built up while free *)
Join(p, f) ==
  /\ ~InTree(p) /\ ~InTree(f) /\ parent[f] = None /\ p # f /\ p \notin Below(f) /\ f # Root
  /\ parent' = [parent EXCEPT ![f] = p] /\ UNCHANGED <<depth, lists>>
(* replaced, cleared or rolled back: the subtree leaves the tree and the lists *)
Detach(f) ==
  /\ InTree(f) /\ f # Root
  /\ parent' = [parent EXCEPT ![f] = None]
  /\ depth' = [g \in Fibers |-> IF g \in Below(f) THEN 0 ELSE depth[g]]
  /\ lists' = [i \in 1..Depth |-> lists[i] \ Below(f)]
Next == \/ \E p, f \in Fibers : Attach(p, f) \/ Join(p, f)
        \/ \E f \in Fibers : Detach(f)
Spec == Init /\ [][Next]_vars
RECURSIVE Level(_)
Level(i) == IF i = 1 THEN {Root} ELSE {g \in Fibers : parent[g] \in Level(i - 1)}
ListsMirrorTree == \A i \in 1..Depth : lists[i] = Level(i)
FreeNowhere == \A f \in Fibers : ~InTree(f) => \A i \in 1..Depth : f \notin lists[i]
=============================================================================
