---------------------------- MODULE MC_PointMap ----------------------------
(* The tree, accessed by paths, refines the map from points to values; lookup  *)
(* with every usable shortcut gives the same answer as without.                *)
EXTENDS PointMap
CONSTANTS D, NC, MaxWrites
VARIABLES tree, m, n, handles
vars == <<tree, m, n, handles>>
d == <<0, 1>>
Coords == {<<c>> : c \in 0..(NC - 1)}
Points == [1..D -> Coords]
Prefs == UNION {[1..k -> Coords] : k \in 0..D}
Writes == {[k |-> "none", v |-> d]} \cup {[k |-> o, v |-> Val(x)] : o \in {"set", "add"}, x \in {0, 1}}

Init == tree = EmptyFiber /\ m = {} /\ n = 0 /\ handles = {}
Ref(pt, w) ==
  LET t1 == WithPath(tree, pt, D, d, "i")
      v == Update(ReadPoint(t1, pt).v, w) IN
  /\ tree' = SetLeaf(t1, pt, v)
  /\ m' = Put(m, pt, Update(Value(m, pt, d), w), d)
  /\ handles' = handles \cup {pt}
RefPrefix(pt) ==
  /\ tree' = WithPath(tree, pt, D, d, "i")
  /\ m' = m /\ UNCHANGED handles
Later(pt, w) ==      \* a write through a handle obtained earlier
  /\ tree' = SetLeaf(tree, pt, Update(ReadPoint(tree, pt).v, w))
  /\ m' = Put(m, pt, Update(Value(m, pt, d), w), d)
  /\ UNCHANGED handles
Next == /\ n < MaxWrites /\ n' = n + 1
        /\ \/ \E pt \in Points, w \in Writes : Ref(pt, w)
           \/ \E pt \in Prefs : Len(pt) < D /\ RefPrefix(pt)
           \/ \E pt \in handles, w \in Writes : Later(pt, w)
Spec == Init /\ [][Next]_vars

Refines == Content(tree, d) = m
Reads == \A pt \in Points :
  LET x == ReadPoint(tree, pt) IN (IF Absent(x) THEN d ELSE x.v) = Value(m, pt, d)
PrefixReads == \A pt \in Prefs :
  LET x == ReadPoint(tree, pt) IN
  (IF Absent(x) THEN {} ELSE IF x.k = "F" THEN Content(x, d) ELSE {y \in {<<<<>>, x.v>>} : x.v # d}) = Under(m, pt)
Stays == WellFormed(tree) /\ LeavesAt(tree, D)
HandlesLive == \A pt \in handles : ~Absent(ReadPoint(tree, pt))
Shortcuts ==
  \A k \in 0..(D - 1) : LET f == FibersAt(tree, k) IN
    \A i \in DOMAIN f : \A c \in Coords : \A s \in 0..NC :
      ValidHint(f[i].c, c, s) =>
        LET p == SearchFrom(f[i].c, c, s) IN
        /\ p = SearchFrom(f[i].c, c, 0)
        /\ Position(f[i].c, c) = IF Found(f[i].c, c, p) THEN p ELSE -1
=============================================================================
