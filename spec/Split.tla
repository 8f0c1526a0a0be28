------------------------------- MODULE Split -------------------------------
(* Splitting a fiber: which partitions there are and what each contains.      *)
(* A split is described by a = [kind, step, splits, sizes, pre, post, rel].    *)
(* as/ae is the active range of the fiber that is split (coordinates).         *)
EXTENDS FT

Inf == <<1073741824>>
Lt(x, y) == LexLT(x, y)
Le(x, y) == LexLE(x, y)
MaxC(x, y) == IF Lt(x, y) THEN y ELSE x
MinC(x, y) == IF Lt(x, y) THEN x ELSE y
(* move a coordinate (only integer coordinates are ever moved) *)
Off(c, k) == IF k = 0 \/ c = Inf THEN c ELSE <<c[1] + k>>
Diff(c, s) == [i \in DOMAIN c |-> c[i] - s[i]]

ElemCoords(f, d) == NonEmptyCoords(f, d)
InActive(c, as, ae) == Le(as, c) /\ Lt(c, ae)
ActiveCoords(f, d, as, ae) == SelectSeq(ElemCoords(f, d), LAMBDA c : InActive(c, as, ae))

FloorDiv(x, k) == IF x >= 0 THEN x \div k ELSE -((-x + k - 1) \div k)
CeilDiv(x, k) == (x + k - 1) \div k

(* the starting boundaries, ascending *)
RECURSIVE Prefix(_, _)
Prefix(sizes, k) == IF k = 0 THEN 0 ELSE Prefix(sizes, k - 1) + sizes[k]
Starts(f, d, a, as, ae) ==
  LET act == ActiveCoords(f, d, as, ae)
      n == Len(act)
  IN
  CASE a.kind = "uniform" ->
         (* partitions too far from every element are empty *)
         LET e == ElemCoords(f, d)
             first == FloorDiv(IF e = <<>> THEN as[1] ELSE Max2(as[1], e[1][1] - a.post - a.step), a.step)
             last == IF e = <<>> THEN first - 1
                     ELSE FloorDiv(Min2(ae[1] - 1, e[Len(e)][1] + a.pre), a.step)
         IN [k \in 1..Max2(0, last - first + 1) |-> <<(first + k - 1) * a.step>>]
    [] a.kind = "nonuniform" -> [k \in DOMAIN a.splits |-> <<a.splits[k]>>]
    [] a.kind = "equal" ->
         IF n = 0 THEN <<>>
         ELSE [k \in 1..CeilDiv(n, a.step) |-> IF k = 1 THEN as ELSE act[(k - 1) * a.step + 1]]
    [] a.kind = "unequal" ->
         IF n = 0 THEN <<>>
         ELSE LET m == Cardinality({k \in DOMAIN a.sizes : Prefix(a.sizes, k) < n}) IN
              [k \in 1..(m + 1) |-> IF k = 1 THEN as ELSE act[Prefix(a.sizes, k - 1) + 1]]

(* partitions as <<start, end>>; only those that meet the active range exist *)
Partitions(f, d, a, as, ae) ==
  LET s == Starts(f, d, a, as, ae)
      all == [k \in DOMAIN s |->
                <<s[k], IF a.kind = "uniform" THEN <<s[k][1] + a.step>>
                        ELSE IF k < Len(s) THEN s[k + 1] ELSE Inf>>]
  IN SelectSeq(all, LAMBDA p : Lt(as, p[2]) /\ Lt(p[1], ae))

(* the coordinates of a partition: its interval extended by the halo *)
Member(c, p, a, as, ae) ==
  /\ Le(Off(MaxC(p[1], as), -a.pre), c)
  /\ Lt(c, Off(MinC(p[2], ae), a.post))
Members(f, d, p, a, as, ae) == SelectSeq(ElemCoords(f, d), LAMBDA c : Member(c, p, a, as, ae))

(* the expected upper level: start, coordinates and active range of each partition *)
Expected(f, d, a, as, ae) ==
  LET ps == Partitions(f, d, a, as, ae)
      all == [k \in DOMAIN ps |->
        LET p == ps[k]
            m == Members(f, d, p, a, as, ae)
            lo == MaxC(p[1], as)
            hi == MinC(p[2], ae)
        IN [start |-> p[1], orig |-> m,
            coords |-> [j \in DOMAIN m |-> IF a.rel THEN Diff(m[j], p[1]) ELSE m[j]],
            lo |-> IF a.rel THEN Diff(lo, p[1]) ELSE lo,
            hi |-> IF a.rel THEN Diff(hi, p[1]) ELSE hi]]
  IN SelectSeq(all, LAMBDA x : x.orig # <<>>)
=============================================================================
