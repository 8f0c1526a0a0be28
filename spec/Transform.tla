----------------------------- MODULE Transform -----------------------------
(* Rank transforms as maps on points.  A point is a sequence of coordinates,  *)
(* a coordinate a sequence of integers.  A transform is described by          *)
(* a = [o, depth, levels, style, perm, fn] (depths and permutations from 0).   *)
EXTENDS FT

Concat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
SumInts(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
ProdInts(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)

(* the combination of the coordinates cs of adjacent ranks with shapes ss *)
Combine(cs, ss, style) ==
  CASE style \in {"tuple", "pair"} -> Concat(cs)
    [] style = "absolute" -> cs[Len(cs)]
    [] style = "relative" -> <<SumInts([i \in DOMAIN cs |-> cs[i][1]])>>
    [] style = "linear" -> (* row-major position *)
         <<SumInts([i \in DOMAIN cs |-> cs[i][1] * ProdInts([j \in 1..(Len(cs) - i) |-> ss[i + j][1]])])>>

(* the image of a point; ss are the shapes of the operand's ranks *)
Image(pt, a, ss) ==
  LET k == a.depth IN
  CASE a.o = "swizzle" -> [i \in DOMAIN pt |-> pt[a.perm[i] + 1]]
    [] a.o = "swap" -> [i \in DOMAIN pt |-> IF i = k + 1 THEN pt[k + 2] ELSE IF i = k + 2 THEN pt[k + 1] ELSE pt[i]]
    [] a.o \in {"flatten", "merge"} ->
         SubSeq(pt, 1, k) \o
         <<Combine(SubSeq(pt, k + 1, k + a.levels + 1),
                   IF a.style = "linear" THEN SubSeq(ss, k + 1, k + a.levels + 1) ELSE <<>>, a.style)>> \o
         SubSeq(pt, k + a.levels + 2, Len(pt))
    [] a.o = "unflatten" ->
         LET c == pt[k + 1] IN
         SubSeq(pt, 1, k) \o [i \in 1..a.levels |-> <<c[i]>>] \o <<SubSeq(c, a.levels + 1, Len(c))>> \o
         SubSeq(pt, k + 2, Len(pt))
    [] OTHER -> pt

(* reducing colliding values (integers), in the order of their points *)
Reduce(vs, fn) ==
  LET n == [i \in DOMAIN vs |-> vs[i][1]] IN
  CASE Len(vs) = 1 -> vs[1]
    [] fn \in {"none", "sum"} -> Val(SumInts(n))
    [] fn = "max" -> Val(Max({n[i] : i \in DOMAIN n}))
    [] fn = "prod" -> Val(ProdInts(n))
    [] OTHER -> vs[1]

PtLT(p, q) == LexLT(Concat(p), Concat(q))
(* content after a transform: points moved to their image, collisions reduced *)
Moved(cont, a, ss, d) ==
  LET imgs == {Image(x[1], a, ss) : x \in cont}
      at(q) == LET S == {x \in cont : Image(x[1], a, ss) = q}
                   s == SetToSortSeq(S, LAMBDA x, y : PtLT(x[1], y[1]))
               IN Reduce([i \in DOMAIN s |-> s[i][2]], a.fn)
  IN {x \in {<<q, at(q)>> : q \in imgs} : x[2] # d}

(* several levels may also be merged one after the other, deepest first *)
RECURSIVE MovedByLevel(_, _, _, _)
MovedByLevel(cont, a, ss, d) ==
  IF a.o \notin {"merge", "flatten"} \/ a.levels = 1 \/ a.style = "linear" THEN Moved(cont, a, ss, d)
  ELSE MovedByLevel(Moved(cont, [a EXCEPT !.depth = a.depth + a.levels - 1, !.levels = 1], ss, d),
                    [a EXCEPT !.levels = a.levels - 1], ss, d)

RanksAfter(D, a) ==
  CASE a.o \in {"flatten", "merge"} -> D - a.levels
    [] a.o = "unflatten" -> D + a.levels
    [] OTHER -> D

(* the structure of coordinates: n integers as a tuple, or right-nested pairs *)
RECURSIVE Ints(_), Nested(_)
Ints(n) == IF n = 0 THEN "" ELSE "i" \o Ints(n - 1)
TupleSig(n) == IF n = 1 THEN "i" ELSE "(" \o Ints(n) \o ")"
Nested(n) == IF n = 1 THEN "i" ELSE "(i" \o Nested(n - 1) \o ")"
StyleSig(style, n) == IF style = "pair" THEN Nested(n) ELSE TupleSig(n)

(* ---- the same transforms on trees, constructively (used by the design model) *)
FlattenTop(n) ==
  LET parts == [i \in DOMAIN n.c |-> LET x == n.p[i] IN
                  [c |-> [j \in DOMAIN x.c |-> n.c[i] \o x.c[j]], p |-> x.p]]
  IN MkFiber(FoldLeft(LAMBDA acc, x : acc \o x.c, <<>>, parts),
             FoldLeft(LAMBDA acc, x : acc \o x.p, <<>>, parts), "(ii)")
UnflattenTop(n) ==
  LET heads == SetToSortSeq({<<n.c[i][1]>> : i \in DOMAIN n.c}, LexLT)
      sub(h) == LET ix == SelectSeq([i \in DOMAIN n.c |-> i], LAMBDA i : n.c[i][1] = h[1]) IN
                MkFiber([j \in DOMAIN ix |-> Tail(n.c[ix[j]])], [j \in DOMAIN ix |-> n.p[ix[j]]], "i")
  IN MkFiber(heads, [k \in DOMAIN heads |-> sub(heads[k])], "i")
SwapTop(n) ==
  LET f == FlattenTop(n)
      o == SetToSortSeq(DOMAIN f.c, LAMBDA i, j : LexLT(Reverse(f.c[i]), Reverse(f.c[j])))
  IN UnflattenTop(MkFiber([i \in DOMAIN o |-> Reverse(f.c[o[i]])], [i \in DOMAIN o |-> f.p[o[i]]], "(ii)"))
=============================================================================
