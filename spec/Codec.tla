-------------------------------- MODULE Codec --------------------------------
(* Compressed encodings of a tensor (C20).  A descriptor gives each rank one of *)
(* "U" (uncompressed), "C" (coordinate list), "B" (bit vector).  What a rank    *)
(* stores, its fibers one after the other, depth first:                         *)
(*   c  U nothing; C the coordinates; B a mask with one bit per position        *)
(*   p  above a C or B rank: per element (U: per position) the cumulative       *)
(*      occupancy of the sub-fibers so far, starting anew in each fiber         *)
(*   v  at the leaves: per element (U: per position) its value                  *)
(* root: the occupancy of the first fiber, when the first rank is C or B.       *)
(* Sub-fibers are stored for every element (U: for every position).             *)
EXTENDS FT, TLC

Explicit(f) == f \in {"C", "B"}      \* the rank above says how many elements a fiber has
Zero == Val(0)

(* ---- decoding: rank by rank, from the layout alone ---- *)
SumTo(s, n) == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(s, 1, n))
Sum(s) == SumTo(s, Len(s))
Slice(s, a, n) == SubSeq(s, a + 1, a + n)
(* F: how many fibers the rank has, occ: their occupancies if the rank is explicit *)
Readable(f, r, dim, F, occ, more) ==
  /\ Len(r.c) = (CASE f = "U" -> 0 [] f = "C" -> Sum(occ) [] f = "B" -> F * dim)
  /\ f = "B" => \A i \in DOMAIN r.c : r.c[i] \in {0, 1}
  /\ LET n == IF f = "U" THEN F * dim ELSE Sum(occ) IN
     IF more = "" THEN Len(r.v) = n /\ r.p = <<>>
     ELSE r.v = <<>> /\ Len(r.p) = (IF Explicit(more) THEN n ELSE 0)
FiberCoords(f, r, dim, occ, j) ==
  CASE f = "U" -> [i \in 1..dim |-> i - 1]
    [] f = "C" -> Slice(r.c, SumTo(occ, j - 1), occ[j])
    [] f = "B" -> SelectSeq([i \in 1..dim |-> i - 1], LAMBDA c : r.c[(j - 1) * dim + c + 1] = 1)
(* elements before the first of fiber j *)
Offset(f, dim, occ, j) == IF f = "U" THEN (j - 1) * dim ELSE SumTo(occ, j - 1)
Differences(s) == [i \in DOMAIN s |-> IF i = 1 THEN s[1] ELSE s[i] - s[i - 1]]
(* Levels: for each rank its fibers [cs, off]; <<>> where the layout is broken *)
Bad == <<>>
RECURSIVE LevelsFrom(_, _, _, _, _, _)
LevelsFrom(desc, dims, out, d, F, occ) ==
  LET f == desc[d]
      more == IF d = Len(desc) THEN "" ELSE desc[d + 1]
      r == out.ranks[d] IN
  IF \E j \in DOMAIN occ : occ[j] < 0 THEN Bad
  ELSE IF ~Readable(f, r, dims[d], F, occ, more) THEN Bad
  ELSE LET fs == [j \in 1..F |-> [cs |-> FiberCoords(f, r, dims[d], occ, j), off |-> Offset(f, dims[d], occ, j)]]
           n == FoldLeft(LAMBDA a, x : a + Len(x.cs), 0, fs)
           next == IF more = "" \/ ~Explicit(more) THEN <<>>
                   ELSE FlattenSeq([j \in 1..F |-> Differences(Slice(r.p, fs[j].off, Len(fs[j].cs)))])
           rest == IF more = "" THEN <<>> ELSE LevelsFrom(desc, dims, out, d + 1, n, next) IN
       IF f = "B" /\ \E j \in 1..F : Len(fs[j].cs) # occ[j] THEN Bad
       ELSE IF more # "" /\ rest = Bad THEN Bad
       ELSE <<fs>> \o rest
Levels(desc, dims, out) ==
  IF Len(out.root) # (IF Explicit(desc[1]) THEN 1 ELSE 0) THEN Bad
  ELSE LevelsFrom(desc, dims, out, 1, 1, out.root)
(* the content below fiber j of rank d, at point pre: set of <<point, value>> *)
RECURSIVE Below(_, _, _, _, _)
Below(L, out, d, j, pre) ==
  LET x == L[d][j] IN
  IF d = Len(L) THEN {<<Append(pre, <<x.cs[i]>>), out.ranks[d].v[x.off + i]>> : i \in {k \in DOMAIN x.cs : out.ranks[d].v[x.off + k] # Zero}}
  ELSE UNION {Below(L, out, d + 1, x.off + i, Append(pre, <<x.cs[i]>>)) : i \in DOMAIN x.cs}
Decoded(L, out) == Below(L, out, 1, 1, <<>>)
(* no fiber of a rank stores a coordinate twice, or one outside the shape *)
Proper(L, dims) == \A d \in DOMAIN L : \A j \in DOMAIN L[d] :
  LET cs == L[d][j].cs IN /\ \A i \in DOMAIN cs : 0 <= cs[i] /\ cs[i] < dims[d]
                          /\ \A i \in 1..(Len(cs) - 1) : cs[i] < cs[i + 1]

(* ---- what a fiber object holds, and its size in words ---- *)
Bits == 32
Kids(desc, d) == d < Len(desc)
Occupancies(desc, L, d, j) == IF d < Len(desc) /\ Explicit(desc[d + 1]) THEN Len(L[d][j].cs) ELSE 0
(* payload entries: the values; in a compressed fiber also the sub-fibers it    *)
(* refers to, unless they follow from their position (U)                        *)
Payloads(desc, L, d, j) ==
  IF d = Len(desc) THEN Len(L[d][j].cs)
  ELSE IF desc[d] = "U" \/ ~Explicit(desc[d + 1]) THEN 0 ELSE Len(L[d][j].cs)
CoordWords(desc, dims, L, d, j) ==
  CASE desc[d] = "U" -> 0 [] desc[d] = "C" -> Len(L[d][j].cs) [] desc[d] = "B" -> (dims[d] + Bits - 1) \div Bits
Size(desc, dims, L, d, j) == CoordWords(desc, dims, L, d, j) + Occupancies(desc, L, d, j) + Payloads(desc, L, d, j)

(* ---- the handle interface ---- *)
(* scanning from a coordinate on: [c, k] coordinate and which sub-fiber of the  *)
(* next rank (0-based), [c, v] at the leaves                                    *)
FirstAt(cs, q) == {i \in DOMAIN cs : cs[i] >= q /\ \A k \in DOMAIN cs : k < i => cs[k] < q}
Lookup(cs, q) == IF FirstAt(cs, q) = {} THEN -1 ELSE (CHOOSE i \in FirstAt(cs, q) : TRUE) - 1
ScanFrom(L, d, j, q) == LET x == L[d][j] IN
  SelectSeq([i \in DOMAIN x.cs |-> <<x.cs[i], x.off + i - 1>>], LAMBDA y : y[1] >= q)

(* ---- encoding ---- *)
EmptyRank == [c |-> <<>>, p |-> <<>>, v |-> <<>>]
Join(a, b) == [i \in DOMAIN a |-> [c |-> a[i].c \o b[i].c, p |-> a[i].p \o b[i].p, v |-> a[i].v \o b[i].v]]
ChildAt(n, c) == LET h == {i \in DOMAIN n.c : n.c[i] = <<c>>} IN IF h = {} THEN EmptyFiber ELSE n.p[CHOOSE i \in h : TRUE]
ValueAt(n, c) == LET h == {i \in DOMAIN n.c : n.c[i] = <<c>>} IN IF h = {} THEN Zero ELSE n.p[CHOOSE i \in h : TRUE].v
RECURSIVE HasContent(_)
HasContent(n) == IF n.k = "F" THEN \E i \in DOMAIN n.p : HasContent(n.p[i]) ELSE n.v # Zero
NonEmpty(n) == LET s == SelectSeq([i \in DOMAIN n.c |-> i], LAMBDA i : HasContent(n.p[i])) IN [k \in DOMAIN s |-> n.c[s[k]][1]]
(* occupancy and ranks d.. of the encoding of fiber n *)
RECURSIVE EncodeAt(_, _, _, _)
EncodeAt(n, d, desc, dims) ==
  LET cs == IF desc[d] = "U" THEN [i \in 1..dims[d] |-> i - 1] ELSE NonEmpty(n)
      own == CASE desc[d] = "U" -> <<>> [] desc[d] = "C" -> cs
               [] desc[d] = "B" -> [i \in 1..dims[d] |-> IF \E k \in DOMAIN cs : cs[k] = i - 1 THEN 1 ELSE 0]
      none == [i \in 1..Len(desc) |-> EmptyRank] IN
  IF d = Len(desc)
  THEN [occ |-> Len(cs), ranks |-> [none EXCEPT ![d] = [c |-> own, p |-> <<>>, v |-> [i \in DOMAIN cs |-> ValueAt(n, cs[i])]]]]
  ELSE LET subs == [i \in DOMAIN cs |-> EncodeAt(ChildAt(n, cs[i]), d + 1, desc, dims)]
           occs == [i \in DOMAIN cs |-> subs[i].occ]
           cum == [i \in DOMAIN cs |-> SumTo(occs, i)]
           all == FoldLeft(LAMBDA a, x : Join(a, x.ranks), none, subs) IN
       [occ |-> Len(cs), ranks |-> Join([none EXCEPT ![d] = [c |-> own, p |-> IF Explicit(desc[d + 1]) THEN cum ELSE <<>>, v |-> <<>>]], all)]
Encode(n, desc, dims) == LET e == EncodeAt(n, 1, desc, dims) IN
  [root |-> IF Explicit(desc[1]) THEN <<e.occ>> ELSE <<>>, ranks |-> e.ranks]
=============================================================================
