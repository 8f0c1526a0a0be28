----------------------------- MODULE Footprint -----------------------------
(* Bits a tensor takes.  sp[d]: the specification of rank d, sh[d] its shape;  *)
(* a missing field is absent from the record.                                  *)
EXTENDS FT, TLC

Field(r, f) == IF f \in DOMAIN r THEN r[f] ELSE 0
Format(r) == IF "format" \in DOMAIN r THEN r.format ELSE "C"
Layout(r) == IF "layout" \in DOMAIN r THEN r.layout ELSE "contiguous"
ElemBits(r) == Field(r, "cbits") + Field(r, "pbits")

FiberBits(n, r, s) == Field(r, "fhbits") + ElemBits(r) * (IF Format(r) = "C" THEN Len(n.c) ELSE s)
SumSeq(q) == FoldLeft(LAMBDA acc, x : acc + x, 0, q)
RankBits(t, sp, sh, d) == LET fs == FibersAt(t, d - 1) IN
  Field(sp[d], "rhbits") + SumSeq([i \in DOMAIN fs |-> FiberBits(fs[i], sp[d], sh[d])])
RootBits(root) == Field(root, "hbits") + Field(root, "pbits")
TensorBits(t, sp, sh, root) == RootBits(root) + SumSeq([d \in DOMAIN sp |-> RankBits(t, sp, sh, d)])

(* the fibers reached below a fiber: <<depth, fiber>> *)
RECURSIVE Reached(_, _, _, _, _)
Reached(n, def, sp, sh, d) ==
  <<<<d, n>>>> \o
  (IF d = Len(sp) THEN <<>>
   ELSE LET kids == IF Format(sp[d]) = "U"
                    THEN [c \in 1..sh[d] |-> IF Has(n, <<c - 1>>) THEN At(n, <<c - 1>>) ELSE EmptyFiber]
                    ELSE LET ix == NonEmptyIdx(n, def) IN [j \in DOMAIN ix |-> n.p[ix[j]]] IN
        FoldLeft(LAMBDA acc, x : acc \o Reached(x, def, sp, sh, d + 1), <<>>, kids))
RECURSIVE NodeAt(_, _)
NodeAt(n, pt) == IF pt = <<>> THEN n ELSE NodeAt(IF Has(n, Head(pt)) THEN At(n, Head(pt)) ELSE EmptyFiber, Tail(pt))
SubTreeBits(t, def, sp, sh, pt) ==
  IF Len(pt) = Len(sp) THEN ElemBits(sp[Len(sp)])
  ELSE LET r == Reached(NodeAt(t, pt), def, sp, sh, Len(pt) + 1) IN SumSeq([i \in DOMAIN r |-> FiberBits(r[i][2], sp[r[i][1]], sh[r[i][1]])])
PointFiberBits(t, sp, sh, pt) == FiberBits(NodeAt(t, pt), sp[Len(pt) + 1], sh[Len(pt) + 1])
=============================================================================
