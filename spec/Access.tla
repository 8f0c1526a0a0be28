------------------------------ MODULE Access ------------------------------
(* What a traced loop instance accesses.  The expression a loop walks:          *)
(*   [t |-> "src", e]        a stored fiber: its elements [c, i, n] (coordinate,*)
(*                           index, and whether it is non-empty)                *)
(*   [t |-> "and"/"or", a]   two-operand co-iteration of a[1], a[2]             *)
(*   [t |-> "lf", a]         leader a[1], followers a[2..] (stored fibers)      *)
(*   [t |-> "get", a]        a[1]; the body looks a[2..] (stored fibers) up     *)
(*   [t |-> "pop", a]        populate from a[1]                                 *)
(*   [t |-> "proj", a, k, b, iv, r]  a[1] under c -> k*c + b, on interval iv    *)
(* Streams are sequences of <<coordinate, position>>; a lazily produced element *)
(* has its ordinal as position.  Streams are pulled: a consumer that stops      *)
(* early has not accessed the rest.                                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Ordinals(cs) == [i \in DOMAIN cs |-> <<cs[i], i - 1>>]
CoordsOf(s) == [i \in DOMAIN s |-> s[i][1]]
Take(s, n) == IF n < Len(s) THEN SubSeq(s, 1, n) ELSE s

(* two-finger walk: heads i, j; o what was delivered, ra, rb what was consumed.  *)
(* d is how many deliveries are asked for; asking for one too many exhausts it.  *)
RECURSIVE Merge(_, _, _, _, _)
Merge(A, B, d, or, st) ==
  LET i == st.i
      j == st.j
      hasA == i <= Len(A)
      hasB == j <= Len(B)
      deliver(c) == Append(st.o, c) IN
  IF Len(st.o) = d /\ d > 0 THEN st   \* suspended at its last delivery
  ELSE IF d = 0 THEN [st EXCEPT !.pa = 0, !.pb = 0]
  ELSE IF hasA /\ hasB /\ A[i][1] = B[j][1]
  THEN LET s2 == [st EXCEPT !.ra = Append(@, A[i]), !.rb = Append(@, B[j]), !.o = deliver(A[i][1])] IN
       IF Len(s2.o) = d THEN s2
       ELSE Merge(A, B, d, or, [s2 EXCEPT !.i = i + 1, !.j = j + 1, !.pa = @ + 1, !.pb = @ + 1])
  ELSE IF hasA /\ (IF hasB THEN A[i][1] < B[j][1] ELSE or)
  THEN LET s2 == [st EXCEPT !.ra = Append(@, A[i]), !.o = IF or THEN deliver(A[i][1]) ELSE @] IN
       IF or /\ Len(s2.o) = d THEN s2 ELSE Merge(A, B, d, or, [s2 EXCEPT !.i = i + 1, !.pa = @ + 1])
  ELSE IF hasB /\ (hasA \/ or)
  THEN LET s2 == [st EXCEPT !.rb = Append(@, B[j]), !.o = IF or THEN deliver(B[j][1]) ELSE @] IN
       IF or /\ Len(s2.o) = d THEN s2 ELSE Merge(A, B, d, or, [s2 EXCEPT !.j = j + 1, !.pb = @ + 1])
  ELSE (* one side is exhausted: the other's head has been looked at *)
       [st EXCEPT !.ra = IF hasA THEN Append(@, A[i]) ELSE @, !.rb = IF hasB THEN Append(@, B[j]) ELSE @]
Walk(A, B, d, or) == Merge(A, B, d, or, [i |-> 1, j |-> 1, o |-> <<>>, ra |-> <<>>, rb |-> <<>>, pa |-> 1, pb |-> 1])
All == 1000000

NonEmptyOf(e) == LET s == SelectSeq(e, LAMBDA x : x.n) IN [i \in DOMAIN s |-> <<s[i].c, s[i].i>>]
Inside(c, iv) == iv = <<>> \/ (iv[1] <= c /\ c < iv[2])

RECURSIVE Stream(_), ProjSrc(_), ProjHit(_)
Stream(n) ==
  CASE n.t = "src" -> NonEmptyOf(n.e)
    [] n.t = "and" -> Ordinals(Walk(Stream(n.a[1]), Stream(n.a[2]), All, FALSE).o)
    [] n.t = "or" -> Ordinals(Walk(Stream(n.a[1]), Stream(n.a[2]), All, TRUE).o)
    [] n.t = "get" -> Stream(n.a[1])
    [] n.t \in {"lf", "pop"} -> Ordinals(CoordsOf(Stream(n.a[1])))
    [] n.t = "proj" -> LET h == ProjHit(n) IN [i \in DOMAIN h |-> <<n.k * h[i][1] + n.b, i - 1>>]
ProjSrc(n) == IF n.k < 0 THEN Reverse(Stream(n.a[1])) ELSE Stream(n.a[1])
ProjHit(n) == SelectSeq(ProjSrc(n), LAMBDA x : Inside(n.k * x[1] + n.b, n.iv))

(* ---- the rows of an instance: sequence of [ty, k, rows], k the traced rank ---- *)
(* A row is <<coordinate, position>>; position -1 when the element does not exist. *)
Row(ty, k, rows) == <<[ty |-> ty, k |-> k, rows |-> rows]>>
IndexOf(e, c) == LET h == {i \in DOMAIN e : e[i].c = c} IN IF h = {} THEN -1 ELSE e[CHOOSE i \in h : TRUE].i
Name(p, lab) == p \o ToString(lab)
RECURSIVE Rows(_, _, _, _)
Rows(n, k, lab, d) ==   \* k: the loop rank; lab: next label; d: how many elements are pulled
  CASE n.t = "src" -> [r |-> <<>>, lab |-> lab]
    [] n.t \in {"and", "or"} ->
         LET w == Walk(Stream(n.a[1]), Stream(n.a[2]), d, n.t = "or")
             p == IF n.t = "and" THEN "intersect_" ELSE "union_"
             x == Rows(n.a[1], k, lab + 2, w.pa)
             y == Rows(n.a[2], k, x.lab, w.pb) IN
         [r |-> Row(Name(p, lab), k, w.ra) \o Row(Name(p, lab + 1), k, w.rb) \o x.r \o y.r, lab |-> y.lab]
    [] n.t = "lf" ->
         LET lead == Take(Stream(n.a[1]), d)
             fol == FoldLeft(LAMBDA acc, j : acc \o Row(Name("intersect_", lab + j - 1), k,
                                [i \in DOMAIN lead |-> <<lead[i][1], IndexOf(n.a[j].e, lead[i][1])>>]),
                             <<>>, [j \in 1..(Len(n.a) - 1) |-> j + 1])
             x == Rows(n.a[1], k, lab + Len(n.a), d) IN
         [r |-> Row(Name("intersect_", lab), k, lead) \o fol \o x.r, lab |-> x.lab]
    [] n.t = "get" ->
         LET lead == Take(Stream(n.a[1]), d)
             x == Rows(n.a[1], k, lab, d) IN
         [r |-> FoldLeft(LAMBDA acc, j : acc \o Row(Name("get_", j), k,
                            [i \in DOMAIN lead |-> <<lead[i][1], IndexOf(n.a[j + 1].e, lead[i][1])>>]),
                         <<>>, [j \in 1..(Len(n.a) - 1) |-> j]) \o x.r,
          lab |-> x.lab]
    [] n.t = "pop" ->
         LET x == Rows(n.a[1], k, lab + 2, d) IN
         [r |-> Row(Name("populate_", lab + 1), k, Take(Stream(n.a[1]), d)) \o x.r, lab |-> x.lab]
    [] n.t = "proj" ->
         LET x == Rows(n.a[1], k, lab + 1, All) IN
         [r |-> Row(Name("project_", lab), n.r, Take(ProjHit(n), d)) \o x.r, lab |-> x.lab]

(* the destinations of an instance: <<label, destination record>> of each populate *)
RECURSIVE Dests(_, _)
Dests(n, lab) == IF n.t = "pop" THEN <<<<lab, n.z>>>> \o Dests(n.a[1], lab + 2) ELSE <<>>
(* A destination record: s the coordinates it held at first, u whether it is uncompressed, b the bodies  *)
(* [c, had, bi, kept, ai]: coordinate, whether it was there and where, whether it *)
(* was left there and where.                                                     *)
Inserting(z) == ~z.u /\ z.s # <<>> /\ z.b # <<>> /\ z.b[1].c < z.s[Len(z.s)]
Reads(z) == LET h == SelectSeq(z.b, LAMBDA x : x.had) IN [i \in DOMAIN h |-> <<h[i].c, h[i].bi>>]
Writes(z) == LET h == SelectSeq(z.b, LAMBDA x : x.kept) IN [i \in DOMAIN h |-> <<h[i].c, h[i].ai>>]

(* ---- judging recorded rows [st, co, pos] ---- *)
RECURSIVE StampLT(_, _)
StampLT(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE StampLT(Tail(a), Tail(b))
Stamped(rows) == \A i \in 1..(Len(rows) - 1) : rows[i].st = rows[i + 1].st \/ StampLT(rows[i].st, rows[i + 1].st)
StrictlyStamped(rows) == \A i \in 1..(Len(rows) - 1) : StampLT(rows[i].st, rows[i + 1].st)
Match(row, pre, x) == row.co = Append(pre, x[1]) /\ (x[2] = -1 \/ row.pos = x[2])
=============================================================================
