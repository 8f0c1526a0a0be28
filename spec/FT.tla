--------------------------------- MODULE FT ---------------------------------
(* Data model of fibertrees.                                                  *)
(*                                                                            *)
(* A node is a record [k, c, p, v, g]:                                        *)
(*   k = "F"   a fiber: c = its coordinates, p = its payloads (same length)   *)
(*   k = "B"   a boxed leaf value v = <<num, den>>                            *)
(*   k = "S"   an unboxed scalar                                              *)
(*   k = "T"   a tuple of payloads p;  "Str" a string g; "N" none             *)
(*   "BB", "BF", "BT", "BX", "X", "L", "CP": things that are never legal leaf *)
(*             or interior payloads of a tree                                 *)
(* A coordinate is the flattened sequence of its integers (<<3>>, <<0,1>>);   *)
(* g of a fiber is the common structure of its coordinates ("i", "(ii)",      *)
(* "((ii)i)", "mixed").                                                       *)
(* A point is a sequence of coordinates.                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Val(n) == <<n, 1>>
Box(v) == [k |-> "B", c |-> <<>>, p |-> <<>>, v |-> v, g |-> ""]
MkFiber(cs, ps, g) == [k |-> "F", c |-> cs, p |-> ps, v |-> <<0, 1>>, g |-> g]
EmptyFiber == MkFiber(<<>>, <<>>, "")

IsFiber(n) == n.k = "F"
IsLeaf(n) == n.k \in {"B", "S"}

(* lexicographic order on flattened coordinates *)
RECURSIVE LexLT(_, _)
LexLT(a, b) ==
  IF a = <<>> THEN b # <<>>
  ELSE IF b = <<>> THEN FALSE
  ELSE IF a[1] # b[1] THEN a[1] < b[1]
  ELSE LexLT(Tail(a), Tail(b))
LexLE(a, b) == a = b \/ LexLT(a, b)

StrictlyAscending(cs) == \A i \in 1..(Len(cs) - 1) : LexLT(cs[i], cs[i + 1])
Ascending(cs) == \A i \in 1..(Len(cs) - 1) : LexLE(cs[i], cs[i + 1])

(* ---------------- well-formedness (C01) ---------------- *)
RECURSIVE SortedTree(_), PairedTree(_), KindsOK(_), LeafDepths(_, _)
PairedTree(n) == n.k = "F" => /\ Len(n.c) = Len(n.p)
                              /\ \A i \in DOMAIN n.p : PairedTree(n.p[i])
SortedTree(n) == n.k = "F" => /\ StrictlyAscending(n.c)
                              /\ \A i \in DOMAIN n.p : SortedTree(n.p[i])
(* interior payloads are fibers, leaves are single boxes *)
KindsOK(n) ==
  /\ \A i \in DOMAIN n.p : n.p[i].k \in {"F", "B"}
  /\ \A i \in DOMAIN n.p : n.p[i].k = "F" => KindsOK(n.p[i])
LeafDepths(n, d) ==
  IF n.k = "F" THEN UNION {LeafDepths(n.p[i], d + 1) : i \in DOMAIN n.p} ELSE {d}
(* depths at which there are leaves: at most one; and no fiber as deep as leaves *)
RECURSIVE FiberDepths(_, _)
FiberDepths(n, d) ==
  IF n.k # "F" THEN {} ELSE {d} \cup UNION {FiberDepths(n.p[i], d + 1) : i \in DOMAIN n.p}
UniformDepth(n) ==
  LET ld == LeafDepths(n, 0) IN
  /\ Cardinality(ld) <= 1
  /\ \A a \in ld, b \in FiberDepths(n, 0) : b < a

WellFormed(n) == /\ IsFiber(n) /\ PairedTree(n) /\ SortedTree(n) /\ KindsOK(n) /\ UniformDepth(n)

(* the same, for a tree of known depth (number of ranks) *)
LeavesAt(n, depth) == LeafDepths(n, 0) \subseteq {depth}

(* ---------------- content ---------------- *)
RECURSIVE ContentAt(_, _, _)
ContentAt(n, d, pre) ==
  IF n.k = "F"
  THEN UNION {ContentAt(n.p[i], d, Append(pre, n.c[i])) : i \in DOMAIN n.c}
  ELSE IF n.v = d THEN {} ELSE {<<pre, n.v>>}
Content(n, d) == ContentAt(n, d, <<>>)      (* set of <<point, value>> *)

RECURSIVE StoredAt(_, _)
StoredAt(n, pre) ==
  IF n.k = "F"
  THEN UNION {StoredAt(n.p[i], Append(pre, n.c[i])) : i \in DOMAIN n.c}
  ELSE {<<pre, n.v>>}
Stored(n) == StoredAt(n, <<>>)              (* the same, explicit defaults included *)

RECURSIVE IsEmptyTree(_, _)
IsEmptyTree(n, d) == IF n.k = "F" THEN \A i \in DOMAIN n.p : IsEmptyTree(n.p[i], d)
                     ELSE n.v = d

(* index of coordinate c in a fiber, 0 if absent *)
Pos(n, c) == LET s == {i \in DOMAIN n.c : n.c[i] = c} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
Has(n, c) == \E i \in DOMAIN n.c : n.c[i] = c
At(n, c) == n.p[Pos(n, c)]

(* the non-empty elements of a fiber, as a sequence of indices *)
NonEmptyIdx(n, d) == SelectSeq([i \in DOMAIN n.c |-> i], LAMBDA i : ~IsEmptyTree(n.p[i], d))
NonEmptyCoords(n, d) == LET ix == NonEmptyIdx(n, d) IN [j \in DOMAIN ix |-> n.c[ix[j]]]
NonEmptyCoordSet(n, d) == {n.c[i] : i \in {j \in DOMAIN n.c : ~IsEmptyTree(n.p[j], d)}}

(* insert / replace / remove an element, keeping order *)
PutElem(n, c, x, g) ==
  IF Has(n, c) THEN [n EXCEPT !.p[Pos(n, c)] = x]
  ELSE LET k == Cardinality({i \in DOMAIN n.c : LexLT(n.c[i], c)}) IN
       [n EXCEPT !.c = SubSeq(n.c, 1, k) \o <<c>> \o SubSeq(n.c, k + 1, Len(n.c)),
                 !.p = SubSeq(n.p, 1, k) \o <<x>> \o SubSeq(n.p, k + 1, Len(n.p)),
                 !.g = IF n.c = <<>> THEN g ELSE n.g]
DropIdx(n, S) ==
  LET ix == SelectSeq([i \in DOMAIN n.c |-> i], LAMBDA i : i \notin S) IN
  [n EXCEPT !.c = [j \in DOMAIN ix |-> n.c[ix[j]]],
            !.p = [j \in DOMAIN ix |-> n.p[ix[j]]],
            !.g = IF ix = <<>> THEN "" ELSE n.g]

(* canonical tree: no explicit defaults, no empty sub-fibers *)
RECURSIVE Prune(_, _)
Prune(n, d) ==
  IF n.k # "F" THEN n
  ELSE LET ix == NonEmptyIdx(n, d) IN
       [n EXCEPT !.c = [j \in DOMAIN ix |-> n.c[ix[j]]],
                 !.p = [j \in DOMAIN ix |-> Prune(n.p[ix[j]], d)],
                 !.g = IF ix = <<>> THEN "" ELSE n.g]
Canonical(n, d) ==
  n.k = "F" => Prune(n, d) = n

(* all fibers at a depth, in left-to-right order *)
RECURSIVE FibersAt(_, _)
FibersAt(n, d) ==
  IF n.k # "F" THEN <<>>
  ELSE IF d = 0 THEN <<n>>
  ELSE FoldLeft(LAMBDA acc, x : acc \o FibersAt(x, d - 1), <<>>, n.p)

(* elementwise mapping of leaf values; reading a point *)
RECURSIVE ReadPoint(_, _)
ReadPoint(n, pt) == (* the node at a point, or a record with k = "absent" *)
  IF pt = <<>> THEN n
  ELSE IF n.k = "F" /\ Has(n, pt[1]) THEN ReadPoint(At(n, pt[1]), Tail(pt))
  ELSE [k |-> "absent", c |-> <<>>, p |-> <<>>, v |-> <<0, 1>>, g |-> ""]
=============================================================================
