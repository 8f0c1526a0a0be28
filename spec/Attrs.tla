------------------------------- MODULE Attrs -------------------------------
(* Attributes of tensors: rank ids, shapes, default, formats, mutability.     *)
(* A rank id is a sequence of strings: <<"K">>, or <<"[", "M", "K">> for the   *)
(* list ["M", "K"].  A shape is a sequence of integers per rank (several for   *)
(* a rank with tuple coordinates).                                            *)
EXTENDS Transform

IsListId(r) == Len(r) > 0 /\ r[1] = "["
Names(r) == IF IsListId(r) THEN Tail(r) ELSE r
ListId(ns) == IF Len(ns) = 1 THEN ns ELSE <<"[">> \o ns
RECURSIVE JoinNames(_)
JoinNames(ns) == IF ns = <<>> THEN ""
                 ELSE "'" \o ns[1] \o "'" \o (IF Len(ns) = 1 THEN "" ELSE ", " \o JoinNames(Tail(ns)))
IdStr(r) == IF IsListId(r) THEN "[" \o JoinNames(Tail(r)) \o "]" ELSE r[1]

(* a re-arrangement of per-rank sequences: the new rank, and for a flatten the *)
(* combination of the old ones                                                 *)
Swap2(s, k) == [i \in DOMAIN s |-> IF i = k + 1 THEN s[k + 2] ELSE IF i = k + 2 THEN s[k + 1] ELSE s[i]]
Perm(s, p) == [i \in DOMAIN p |-> s[p[i] + 1]]
Replace(s, k, n, new) == SubSeq(s, 1, k) \o new \o SubSeq(s, k + n + 1, Len(s))

IdsAfter(ids, a) ==
  LET k == a.depth IN
  CASE a.o = "split" -> Replace(ids, k, 1, <<<<IdStr(ids[k + 1]) \o ".1">>, <<IdStr(ids[k + 1]) \o ".0">>>>)
    [] a.o = "swizzle" -> Perm(ids, a.perm)
    [] a.o = "swap" -> Swap2(ids, k)
    [] a.o \in {"flatten", "merge"} ->
         Replace(ids, k, a.levels + 1,
                 <<<<"[">> \o Concat([i \in 1..(a.levels + 1) |-> Names(ids[k + i])])>>)
    [] a.o = "unflatten" ->
         LET ns == Names(ids[k + 1]) IN
         Replace(ids, k, 1, [i \in 1..a.levels |-> <<ns[i]>>] \o <<ListId(SubSeq(ns, a.levels + 1, Len(ns)))>>)
    [] OTHER -> ids

ShapeAfter(ss, a) ==
  LET k == a.depth
      sub == SubSeq(ss, k + 1, k + a.levels + 1) IN
  CASE a.o = "split" -> Replace(ss, k, 1, <<ss[k + 1], ss[k + 1]>>)
    [] a.o = "swizzle" -> Perm(ss, a.perm)
    [] a.o = "swap" -> Swap2(ss, k)
    [] a.o \in {"flatten", "merge"} ->
         Replace(ss, k, a.levels + 1,
           <<CASE a.style \in {"tuple", "pair"} -> Concat(sub)
               [] a.style = "absolute" -> sub[Len(sub)]
               [] a.style = "relative" -> sub[1]
               [] OTHER -> <<ProdInts([i \in DOMAIN sub |-> sub[i][1]])>> >>)
    [] a.o = "unflatten" ->
         LET s == ss[k + 1] IN
         Replace(ss, k, 1, [i \in 1..a.levels |-> <<s[i]>>] \o <<SubSeq(s, a.levels + 1, Len(s))>>)
    [] OTHER -> ss

(* a rank that did not exist before a flatten or unflatten is compressed *)
FormatsAfter(fs, a) ==
  LET k == a.depth IN
  CASE a.o = "split" -> Replace(fs, k, 1, <<fs[k + 1], fs[k + 1]>>)
    [] a.o = "swizzle" -> Perm(fs, a.perm)
    [] a.o = "swap" -> Swap2(fs, k)
    [] a.o \in {"flatten", "merge"} -> Replace(fs, k, a.levels + 1, <<"C">>)
    [] a.o = "unflatten" -> Replace(fs, k, 1, [i \in 1..(a.levels + 1) |-> "C"])
    [] OTHER -> fs

(* a coordinate inside a shape: in every component *)
InShape(c, s) == Len(c) = Len(s) /\ \A i \in DOMAIN c : c[i] >= 0 /\ c[i] < s[i]
InRange1(c, lo, hi) == LexLE(lo, c) /\ LexLT(c, hi)

(* projections: an image of coordinates and of half-open ranges *)
ProjCoord(c, fn) ==
  CASE fn.k = "shift" -> c + fn.n [] fn.k = "rev" -> fn.n - c [] fn.k = "scale" -> c * fn.n [] OTHER -> c
ProjRanges(lo, hi, fn) == (* the acceptable images of lo..hi-1 *)
  CASE fn.k = "rev" -> {<<fn.n - hi + 1, fn.n - lo + 1>>}
    [] fn.k = "scale" -> {<<lo * fn.n, (hi - 1) * fn.n + 1>>, <<lo * fn.n, hi * fn.n>>}
    [] OTHER -> {<<ProjCoord(lo, fn), ProjCoord(hi - 1, fn) + 1>>}
=============================================================================
