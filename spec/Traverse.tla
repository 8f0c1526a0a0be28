------------------------------ MODULE Traverse ------------------------------
(* Traversals: what each mode of iteration yields, as a sequence of            *)
(* [c, m] (coordinate, pattern of the payload, see CoIter).                    *)
(*                                                                             *)
(* An expression e is [x, a, o, ...]: x = "default", "occ", "range", "active",  *)
(* "shape", "ashape", "rshape" on operand o; "project" and "prune" of the       *)
(* expression e.a[1] under its default iteration; "coiter" of all operands      *)
(* over a dense range; "and", "or", "xor", "sub" of two expressions.            *)
(* Bounds are coordinates; <<>> stands for no bound.                           *)
EXTENDS CoIter, FTMachine

(* ---- the definitions of the modes ---- *)
Within(c, lo, hi) == (lo = <<>> \/ LexLE(lo, c)) /\ (hi = <<>> \/ LexLT(c, hi))
OccSeq(o, x) == PresentOne(o, [x EXCEPT !.fmt = "C"])
RangeSeq(o, x, lo, hi) == SelectSeq(OccSeq(o, x), LAMBDA e : Within(e.c, lo, hi))
PickAt(o, x, c) == IF Has(x.t, c) THEN Own(o, At(x.t, c).i) ELSE Def(o)
DenseSeq(o, x, lo, hi, st) == LET cs == Steps(lo, hi, st) IN [j \in DOMAIN cs |-> [c |-> cs[j], m |-> PickAt(o, x, cs[j])]]
CoDense(ops, lo, hi, st) ==
  LET cs == Steps(lo, hi, st) IN
  [j \in DOMAIN cs |-> [c |-> cs[j], m |-> Tup([o \in DOMAIN ops |-> PickAt(o, ops[o], cs[j])])]]

(* ---- coordinate transforms ---- *)
RECURSIVE Weigh(_, _)
Weigh(c, ws) == IF c = <<>> THEN 0 ELSE c[1] * ws[1] + Weigh(Tail(c), Tail(ws))
Trans(tr, c) ==
  CASE tr.k = "affine" -> [i \in DOMAIN c |-> tr.s * c[i] + tr.o]
    [] tr.k = "merge" -> <<Weigh(c, tr.ws)>>                    \* tuple -> one integer
    [] tr.k = "split" -> <<c[1] \div tr.n, c[1] % tr.n>>        \* integer -> pair
    [] tr.k = "affine2" -> <<tr.s * c[1] + tr.o, tr.s * c[2] + tr.o2>>
(* the elements under the transformed coordinates, ascending, in the interval  *)
ProjectSeq(s, tr, iv) ==
  LET t == [j \in DOMAIN s |-> [c |-> Trans(tr, s[j].c), m |-> s[j].m]]
      u == SortSeq(t, LAMBDA p, q : LexLT(p.c, q.c))
  IN SelectSeq(u, LAMBDA e : iv = <<>> \/ Within(e.c, iv[1], iv[2]))

(* ---- pruning: what the predicate says about element j (1-based) of s ---- *)
Says(pr, j, c, v) ==
  CASE pr.k = "mod" -> IF c[1] % pr.n = pr.r THEN "yes" ELSE "no"
    [] pr.k = "idx" -> IF (j - 1) % pr.n = pr.r THEN "yes" ELSE "no"
    [] pr.k = "below" -> IF c[1] < pr.n THEN "yes" ELSE "no"
    [] pr.k = "stop" -> IF c[1] = pr.n THEN "stop" ELSE IF c[1] % 2 = pr.r THEN "yes" ELSE "no"
    [] pr.k = "val" -> IF v[1] > pr.n * v[2] THEN "yes" ELSE "no"
    [] pr.k = "all" -> "yes"
RECURSIVE PruneFrom(_, _, _, _)
PruneFrom(s, vs, pr, j) ==
  IF j > Len(s) THEN <<>>
  ELSE LET r == Says(pr, j, s[j].c, vs[j]) IN
       IF r = "stop" THEN <<>>
       ELSE (IF r = "yes" THEN <<s[j]>> ELSE <<>>) \o PruneFrom(s, vs, pr, j + 1)
PruneSeq(s, vs, pr) == PruneFrom(s, vs, pr, 1)

(* the leaf value a pattern stands for *)
RECURSIVE ValueOf(_, _), FindId(_, _)
FindId(n, i) == IF n.i = i THEN {n} ELSE UNION {FindId(n.p[j], i) : j \in DOMAIN n.p}
ValueOf(m, ops) ==
  CASE m.k = "own" -> (CHOOSE n \in FindId(ops[m.o].t, m.i) : TRUE).v
    [] m.k = "def" -> ops[m.o].d
    [] OTHER -> <<0, 1>>

RECURSIVE EvalT(_, _)
EvalT(e, ops) ==
  CASE e.x \in {"default", "leaf"} -> PresentOne(e.o, ops[e.o])
    [] e.x = "occ"    -> OccSeq(e.o, ops[e.o])
    [] e.x = "range"  -> RangeSeq(e.o, ops[e.o], e.lo, e.hi)
    [] e.x = "active" -> RangeSeq(e.o, ops[e.o], ops[e.o].alo, ops[e.o].ahi)
    [] e.x = "shape"  -> DenseSeq(e.o, ops[e.o], 0, ops[e.o].shape, 1)
    [] e.x = "ashape" -> DenseSeq(e.o, ops[e.o], ops[e.o].alo[1], ops[e.o].ahi[1], 1)
    [] e.x = "rshape" -> DenseSeq(e.o, ops[e.o], e.lo[1], e.hi[1], e.st)
    [] e.x = "coshape" -> CoDense(ops, 0, ops[1].shape, 1)
    [] e.x = "coashape" -> CoDense(ops, ops[1].alo[1], ops[1].ahi[1], 1)
    [] e.x = "corshape" -> CoDense(ops, e.lo[1], e.hi[1], e.st)
    [] e.x = "project" -> ProjectSeq(EvalT(e.a[1], ops), e.tr, e.iv)
    [] e.x = "prune"  -> LET s == EvalT(e.a[1], ops) IN
                         PruneSeq(s, [j \in DOMAIN s |-> ValueOf(s[j].m, ops)], e.pr)
    [] e.x = "lrange" -> SelectSeq(EvalT(e.a[1], ops), LAMBDA x : Within(x.c, e.lo, e.hi))
    [] e.x = "and" -> Intersect(EvalT(e.a[1], ops), EvalT(e.a[2], ops))
    [] e.x = "sub" -> Diff(EvalT(e.a[1], ops), EvalT(e.a[2], ops))

(* ---- reference variants: the visited absent coordinates are inserted ---- *)
InsertAll(n, h, d, cs) ==
  FoldLeft(LAMBDA acc, c : IF Has(acc, c) THEN acc ELSE PutElem(acc, c, Default(h - 1, d), "i"), n, cs)
KeptIds(n, m) == \A i \in DOMAIN n.c : Has(m, n.c[i]) /\ At(m, n.c[i]) = n.p[i]

(* ---- saved positions ---- *)
(* position p (0-based) is a valid shortcut for a traversal whose first bound is lo *)
ValidStart(n, d, lo, p) ==
  /\ p >= 0 /\ p < Len(n.c)
  /\ \A i \in 1..p : IsEmptyTree(n.p[i], d) \/ (lo # <<>> /\ LexLT(n.c[i], lo))
=============================================================================
