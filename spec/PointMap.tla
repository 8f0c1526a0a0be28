------------------------------ MODULE PointMap ------------------------------
(* Point access: a tree of fibers read and written at points is a map.        *)
(*                                                                            *)
(* Reads: the value at a point, or the default; the sub-map under a prefix.    *)
(* References: the path is created (leaf at the default), everything else      *)
(* stays.  Lookup of positions in a coordinate sequence, with and without a    *)
(* search-start shortcut.                                                      *)
EXTENDS FT

Absent(n) == n.k = "absent"
Under(m, pre) ==    \* the part of a map below a prefix, with the prefix cut off
  {<<SubSeq(x[1], Len(pre) + 1, Len(x[1])), x[2]>> :
     x \in {y \in m : Len(y[1]) >= Len(pre) /\ SubSeq(y[1], 1, Len(pre)) = pre}}
Value(m, pt, d) == IF \E x \in m : x[1] = pt THEN (CHOOSE x \in m : x[1] = pt)[2] ELSE d
Put(m, pt, v, d) ==
  {x \in m : x[1] # pt} \cup (IF v = d THEN {} ELSE {<<pt, v>>})

(* the tree with the path to a point (or prefix) of a tree of D ranks present  *)
RECURSIVE WithPath(_, _, _, _, _)
WithPath(n, pt, D, d, g) ==
  IF pt = <<>> THEN n
  ELSE LET sub == IF Has(n, pt[1]) THEN At(n, pt[1])
                  ELSE IF D = 1 THEN Box(d) ELSE EmptyFiber IN
       PutElem(n, pt[1], WithPath(sub, Tail(pt), D - 1, d, g), g)
RECURSIVE SetLeaf(_, _, _)
SetLeaf(n, pt, v) ==
  IF pt = <<>> THEN [n EXCEPT !.v = v]
  ELSE [n EXCEPT !.p[Pos(n, pt[1])] = SetLeaf(@, Tail(pt), v)]

(* rationals <<num, den>> *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Norm(q) == IF q[1] = 0 THEN <<0, 1>>
           ELSE LET g == Gcd(Abs(q[1]), Abs(q[2])) s == IF q[2] < 0 THEN -1 ELSE 1 IN
                <<(s * q[1]) \div g, Abs(q[2]) \div g>>
QAdd(a, b) == Norm(<<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)
QSub(a, b) == Norm(<<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>)
QMul(a, b) == Norm(<<a[1] * b[1], a[2] * b[2]>>)
Update(old, w) ==
  CASE w.k = "set" -> w.v [] w.k = "add" -> QAdd(old, w.v) [] w.k = "sub" -> QSub(old, w.v)
    [] w.k = "mul" -> QMul(old, w.v) [] OTHER -> old

(* position lookup (0-based, -1 for absent) *)
Position(cs, c) == IF \E i \in DOMAIN cs : cs[i] = c THEN (CHOOSE i \in DOMAIN cs : cs[i] = c) - 1 ELSE -1
(* a search beginning at a shortcut: linear, until the coordinate is reached    *)
SearchFrom(cs, c, s) ==
  LET later == {i \in (s + 1)..Len(cs) : LexLE(c, cs[i])} IN
  IF later = {} THEN Len(cs) ELSE (CHOOSE i \in later : \A j \in later : i <= j) - 1
(* a usable shortcut: the start, or an element not beyond the coordinate        *)
ValidHint(cs, c, s) == s = 0 \/ (s > 0 /\ s < Len(cs) /\ LexLE(cs[s + 1], c))
Found(cs, c, p) == p < Len(cs) /\ cs[p + 1] = c
=============================================================================
