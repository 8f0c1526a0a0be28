------------------------------ MODULE Traffic ------------------------------
(* Traffic between a buffer and memory, from traces of accesses.               *)
(* A trace row is [s |-> iteration stamp, p |-> point, pos |-> position].      *)
(* An access is [t |-> tensor, ln |-> line, w |-> is a write, stg |-> addresses *)
(* the staging area beyond the rank's shape, s |-> stamp].                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

RECURSIVE LexLT(_, _)
LexLT(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
  ELSE LexLT(Tail(a), Tail(b))

(* ---- combination: a stable merge by stamp, reads first ---- *)
RECURSIVE Combine(_, _)
Tag(x, w) == [row |-> x, w |-> w]
Combine(reads, writes) ==
  IF reads = <<>> THEN [i \in DOMAIN writes |-> Tag(writes[i], TRUE)]
  ELSE IF writes = <<>> THEN [i \in DOMAIN reads |-> Tag(reads[i], FALSE)]
  ELSE IF LexLT(Head(writes).s, Head(reads).s)
       THEN <<Tag(Head(writes), TRUE)>> \o Combine(reads, Tail(writes))
       ELSE <<Tag(Head(reads), FALSE)>> \o Combine(Tail(reads), writes)

(* ---- filtering: the rows whose point occurs in (a prefix of a point of) the filter ---- *)
Filter(rows, filter) ==
  LET pts(n) == {SubSeq(filter[i].p, 1, n) : i \in DOMAIN filter} IN
  SelectSeq(rows, LAMBDA x : x.p \in pts(Len(x.p)))

(* ---- buffet: one binding; a window is what the stamps share up to ev ---- *)
Windows(acc, ev) == {<<acc[i].ln, SubSeq(acc[i].s, 1, ev)>> : i \in DOMAIN acc}
InWindow(acc, ev, x) == {i \in DOMAIN acc : acc[i].ln = x[1] /\ SubSeq(acc[i].s, 1, ev) = x[2]}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
BuffetFills(acc, ev) == Cardinality({x \in Windows(acc, ev) : ~acc[MinOf(InWindow(acc, ev, x))].w})
BuffetWrites(acc, ev) == Cardinality({x \in Windows(acc, ev) : \E i \in InWindow(acc, ev, x) : acc[i].w /\ ~acc[i].stg})

(* The same as a machine: a line is fetched when it is read and absent, stays   *)
(* until the last access of its window, and is written back then if dirty.      *)
BuffetStep(acc, ev, st, i) ==
  LET x == <<acc[i].ln, SubSeq(acc[i].s, 1, ev)>>
      last == ~\E j \in InWindow(acc, ev, x) : j > i
      dirty == st.dirty \cup (IF acc[i].w /\ ~acc[i].stg THEN {acc[i].ln} ELSE {}) IN
  [in |-> IF last THEN st.in \ {acc[i].ln} ELSE st.in \cup {acc[i].ln},
   dirty |-> IF last THEN dirty \ {acc[i].ln} ELSE dirty,
   r |-> st.r + (IF acc[i].ln \notin st.in /\ ~acc[i].w THEN 1 ELSE 0),
   w |-> st.w + (IF last /\ acc[i].ln \in dirty THEN 1 ELSE 0)]
BuffetRun(acc, ev) == FoldLeft(LAMBDA st, i : BuffetStep(acc, ev, st, i), [in |-> {}, dirty |-> {}, r |-> 0, w |-> 0], [i \in DOMAIN acc |-> i])

(* ---- cache: all bindings share cap lines; acc is in order of time ---- *)
NextUse(acc, i) == LET js == {j \in DOMAIN acc : j > i /\ acc[j].ln = acc[i].ln} IN IF js = {} THEN 0 ELSE MinOf(js)
(* ca: which next uses count as equally far (exactly: none; coarsely: those that *)
(* share a stamp and a binding).                                                 *)
(* c: what is cached, as <<line, class of next use, since when>>; pin: the lines of the staging area  *)
(* (they have nowhere else to go, whatever the capacity); r: the accesses that   *)
(* filled; wb: <<access, line>> of the write-backs                               *)
Lines(c) == {x[1] : x \in c}
Furthest(c) == CHOOSE x \in c : \A y \in c : y[2] < x[2] \/ (y[2] = x[2] /\ y[3] <= x[3])
RECURSIVE MakeRoom(_, _, _)
MakeRoom(st, cap, i) ==   \* evict until one more line fits, if possible
  IF st.c = {} \/ Cardinality(st.c) + Cardinality(st.pin) < cap THEN st
  ELSE LET f == Furthest(st.c) IN
       MakeRoom([st EXCEPT !.c = @ \ {f}, !.dirty = @ \ {f[1]},
                           !.wb = IF f[1] \in st.dirty THEN @ \cup {<<i, f[1]>>} ELSE @], cap, i)
CacheStep(acc, nu, ca, cap, st, i) ==
  LET a == acc[i]
      mark == IF a.w /\ ~a.stg THEN {a.ln} ELSE {}
      s1 == [st EXCEPT !.c = {x \in @ : x[1] # a.ln}]
      hitc == a.ln \in Lines(st.c)
      hitp == a.ln \in st.pin
      s2 == [s1 EXCEPT !.r = IF hitc \/ hitp \/ a.w THEN @ ELSE @ \cup {i}, !.dirty = @ \cup mark]
      leave == [s2 EXCEPT !.pin = @ \ {a.ln}, !.dirty = @ \ {a.ln}, !.wb = IF a.ln \in s2.dirty THEN @ \cup {<<i, a.ln>>} ELSE @]
      enter == [s2 EXCEPT !.c = @ \cup {<<a.ln, ca[nu[i]], i>>}] IN
  IF nu[i] = 0 THEN leave                                   \* never used again
  ELSE IF hitp THEN s2
  ELSE IF hitc THEN enter
  ELSE IF a.stg THEN LET m == MakeRoom(s2, cap, i) IN [m EXCEPT !.pin = @ \cup {a.ln}]
  ELSE IF Cardinality(s2.c) + Cardinality(s2.pin) < cap THEN enter
  ELSE IF s2.c = {} \/ Furthest(s2.c)[2] < ca[nu[i]] THEN leave    \* bypass
  ELSE LET m == MakeRoom(s2, cap, i) IN [m EXCEPT !.c = @ \cup {<<a.ln, ca[nu[i]], i>>}]
CacheInit == [c |-> {}, pin |-> {}, dirty |-> {}, r |-> {}, wb |-> {}]
CacheBy(acc, ca, cap) ==
  LET nu == [i \in DOMAIN acc |-> NextUse(acc, i)] IN
  FoldLeft(LAMBDA st, i : CacheStep(acc, nu, ca, cap, st, i), CacheInit, [i \in DOMAIN acc |-> i])
CacheRun(acc, cap) == CacheBy(acc, [i \in DOMAIN acc |-> i], cap)
(* what the known finding "cache-tie" does: k gives stamp and binding of each access *)
CacheCoarse(acc, k, cap) == CacheBy(acc, [i \in DOMAIN acc |-> MinOf({j \in DOMAIN acc : k[j] = k[i]})], cap)
=============================================================================
