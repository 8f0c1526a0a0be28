------------------------------- MODULE CoIter -------------------------------
(* Co-iteration of fibers as set operations on the coordinates presented.     *)
(*                                                                            *)
(* An operand is [t, d, up, fmt, act]: its raw tree, the default of its rank  *)
(* (leaf value), whether its payloads are fibers, the format of its rank and  *)
(* its active range.  A pattern describes the payload that must be delivered: *)
(*   "own" the operand's stored payload object i (an identity)                *)
(*   "def" a fresh default of operand i;  "tup" a tuple of patterns           *)
EXTENDS FT

Own(o, i) == [k |-> "own", s |-> "", i |-> i, o |-> o, p |-> <<>>]
Def(o)    == [k |-> "def", s |-> "", i |-> 0, o |-> o, p |-> <<>>]
Msk(s)    == [k |-> "msk", s |-> s,  i |-> 0, o |-> 0, p |-> <<>>]
Tup(ps)   == [k |-> "tup", s |-> "", i |-> 0, o |-> 0, p |-> ps]

(* what one fiber presents: its non-empty elements, or - for a rank declared  *)
(* uncompressed - every coordinate of its active range                        *)
PresentOne(o, x) ==
  IF x.fmt = "U"
  THEN [j \in 1..(x.act[2] - x.act[1]) |->
          LET c == <<x.act[1] + j - 1>> IN
          [c |-> c, m |-> IF Has(x.t, c) THEN Own(o, At(x.t, c).i) ELSE Def(o)]]
  ELSE LET ix == NonEmptyIdx(x.t, x.d) IN
       [j \in DOMAIN ix |-> [c |-> x.t.c[ix[j]], m |-> Own(o, x.t.p[ix[j]].i)]]

Coords(s) == {s[i].c : i \in DOMAIN s}
Elem(s, c) == s[CHOOSE i \in DOMAIN s : s[i].c = c].m
Sorted(S) == SetToSortSeq(S, LexLT)
Arity(s) == IF s = <<>> THEN 0 ELSE Len(s[1].c)
IsPrefixOf(p, c) == Len(p) <= Len(c) /\ SubSeq(c, 1, Len(p)) = p

(* truth tables *)
Intersect(a, b) ==
  LET la == Arity(a) lb == Arity(b) IN
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET longer == IF la >= lb THEN Coords(a) ELSE Coords(b)
           shorter == IF la >= lb THEN Coords(b) ELSE Coords(a)
           n == Min2(la, lb)
           cs == Sorted({c \in longer : SubSeq(c, 1, n) \in shorter})
       IN [j \in DOMAIN cs |->
             [c |-> cs[j], m |-> Tup(<<Elem(a, SubSeq(cs[j], 1, la)), Elem(b, SubSeq(cs[j], 1, lb))>>)]]

Union2(a, b, da, db) ==
  LET ca == Coords(a) cb == Coords(b) cs == Sorted(ca \cup cb) IN
  [j \in DOMAIN cs |->
    LET c == cs[j] IN
    [c |-> c, m |-> Tup(<<Msk(IF c \in ca THEN (IF c \in cb THEN "AB" ELSE "A") ELSE "B"),
                          IF c \in ca THEN Elem(a, c) ELSE da,
                          IF c \in cb THEN Elem(b, c) ELSE db>>)]]

Xor2(a, b, da, db) ==
  SelectSeq(Union2(a, b, da, db), LAMBDA x : x.m.p[1].s # "AB")

Diff(a, b) == SelectSeq(a, LAMBDA x : x.c \notin Coords(b))

(* n-ary forms: flat payload tuples (shorter coordinates match on the prefix) *)
IntersectN(ss) ==
  LET Pre(i, c) == SubSeq(c, 1, Min2(Arity(ss[i]), Len(c)))
      long == CHOOSE i \in DOMAIN ss : \A j \in DOMAIN ss : Arity(ss[i]) >= Arity(ss[j])
      cs == Sorted({c \in Coords(ss[long]) : \A i \in DOMAIN ss : Pre(i, c) \in Coords(ss[i])}) IN
  IF \E i \in DOMAIN ss : ss[i] = <<>> THEN <<>>
  ELSE [j \in DOMAIN cs |-> [c |-> cs[j], m |-> Tup([i \in DOMAIN ss |-> Elem(ss[i], Pre(i, cs[j]))])]]

Letter == <<"A", "B", "C", "D", "E", "F">>
MaskOf(ss, c) == FoldLeft(LAMBDA acc, i : IF c \in Coords(ss[i]) THEN acc \o Letter[i] ELSE acc,
                          "", [i \in DOMAIN ss |-> i])
UnionN(ss, ds) ==
  LET cs == Sorted(UNION {Coords(ss[i]) : i \in DOMAIN ss}) IN
  [j \in DOMAIN cs |->
     [c |-> cs[j],
      m |-> Tup(<<Msk(MaskOf(ss, cs[j]))>> \o
                [i \in DOMAIN ss |-> IF cs[j] \in Coords(ss[i]) THEN Elem(ss[i], cs[j]) ELSE ds[i]])]]

(* leader-follower: every leader coordinate; the followers' stored payload    *)
(* (explicit defaults included: it is a lookup) or a default                  *)
LeaderFollower(ops) ==
  LET L == PresentOne(1, ops[1]) IN
  [j \in DOMAIN L |->
     [c |-> L[j].c,
      m |-> Tup(<<L[j].m>> \o
                [i \in 1..(Len(ops) - 1) |->
                   IF Has(ops[i + 1].t, L[j].c) THEN Own(i + 1, At(ops[i + 1].t, L[j].c).i)
                   ELSE Def(i + 1)])]]

(* what stands in for the absent side of an operation over e *)
RECURSIVE DefOf(_)
DefOf(e) ==
  CASE e.x = "leaf" -> Def(e.o)
    [] e.x = "and" -> [k |-> "any", s |-> "", i |-> 0, o |-> 0, p |-> <<>>]   \* no default is stated for pairs
    [] e.x \in {"or", "xor"} -> Tup(<<Msk(""), DefOf(e.a[1]), DefOf(e.a[2])>>)
    [] e.x = "sub" -> DefOf(e.a[1])

RECURSIVE Eval(_, _)
Eval(e, ops) ==
  CASE e.x = "leaf" -> PresentOne(e.o, ops[e.o])
    [] e.x = "and"  -> Intersect(Eval(e.a[1], ops), Eval(e.a[2], ops))
    [] e.x = "or"   -> Union2(Eval(e.a[1], ops), Eval(e.a[2], ops), DefOf(e.a[1]), DefOf(e.a[2]))
    [] e.x = "xor"  -> Xor2(Eval(e.a[1], ops), Eval(e.a[2], ops), DefOf(e.a[1]), DefOf(e.a[2]))
    [] e.x = "sub"  -> Diff(Eval(e.a[1], ops), Eval(e.a[2], ops))
    [] e.x = "inter" -> IntersectN([i \in DOMAIN ops |-> PresentOne(i, ops[i])])
    [] e.x = "union" -> UnionN([i \in DOMAIN ops |-> PresentOne(i, ops[i])], [i \in DOMAIN ops |-> Def(i)])
    [] e.x = "lf"    -> LeaderFollower(ops)

(* ---------- matching a delivered payload with a pattern ---------- *)
RECURSIVE AllIds(_)
AllIds(n) == {n.i} \cup UNION {AllIds(n.p[j]) : j \in DOMAIN n.p}
StoredIds(ops) == UNION {AllIds(ops[i].t) : i \in DOMAIN ops}

FreshDefault(n, x, stored) ==
  /\ n.i \notin stored
  /\ IF x.up = "yes" THEN n.k = "F" /\ n.c = <<>> /\ n.p = <<>>
     ELSE IF x.up = "no" THEN n.k = "B" /\ n.v = x.d
     ELSE \/ (n.k = "F" /\ n.c = <<>>) \/ (n.k = "B" /\ n.v = x.d)

RECURSIVE Match(_, _, _, _)
Match(n, m, ops, stored) ==
  CASE m.k = "own" -> n.i = m.i
    [] m.k = "def" -> FreshDefault(n, ops[m.o], stored)
    [] m.k = "any" -> TRUE
    [] m.k = "msk" -> n.k = "Str" /\ n.g = m.s
    [] m.k = "tup" -> /\ n.k \in {"T", "BT"} /\ Len(n.p) = Len(m.p)
                      /\ \A i \in DOMAIN m.p : Match(n.p[i], m.p[i], ops, stored)

(* identities of the defaults delivered: no two are the same object *)
RECURSIVE DefIds(_, _)
DefIds(n, m) ==
  CASE m.k = "def" -> <<n.i>>
    [] m.k = "tup" /\ n.k \in {"T", "BT"} /\ Len(n.p) = Len(m.p) ->
         FoldLeft(LAMBDA acc, i : acc \o DefIds(n.p[i], m.p[i]), <<>>, [i \in DOMAIN m.p |-> i])
    [] OTHER -> <<>>
NoDup(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)
=============================================================================
