----------------------------- MODULE MC_Traffic -----------------------------
(* Every short sequence of accesses, every capacity, every replacement policy. *)
EXTENDS Traffic
CONSTANTS N, L, C, Writes, Staging
VARIABLES acc, cap, i, in, fills
vars == <<acc, cap, i, in, fills>>
Kinds == {[t |-> "T", ln |-> l, w |-> w, stg |-> FALSE, s |-> <<>>] : l \in 1..L, w \in IF Writes THEN BOOLEAN ELSE {FALSE}}
    \cup (IF Staging THEN {[t |-> "T", ln |-> l, w |-> w, stg |-> TRUE, s |-> <<>>] : l \in {L + 1}, w \in BOOLEAN} ELSE {})
Seqs == UNION {[1..n -> Kinds] : n \in 0..N}
(* stamps for the buffet: two windows, split anywhere *)
Stamped(k) == [j \in DOMAIN acc |-> [acc[j] EXCEPT !.s = <<IF j <= k THEN 0 ELSE 1, j>>]]
Init == acc \in Seqs /\ cap \in 0..C /\ i = 0 /\ in = {} /\ fills = 0
(* an access brings its line in or not; then anything may be thrown out *)
Next == /\ i < Len(acc) /\ i' = i + 1
        /\ fills' = fills + (IF acc[i + 1].ln \in in \/ acc[i + 1].w THEN 0 ELSE 1)
        /\ \E keep \in SUBSET (in \cup {acc[i + 1].ln}) : Cardinality(keep) <= cap /\ in' = keep
        /\ UNCHANGED <<acc, cap>>
R(c) == Cardinality(CacheRun(acc, c).r)
W(c) == Cardinality(CacheRun(acc, c).wb)
(* no policy does better, and the cache model's own run is one of the policies *)
Optimal == (i = Len(acc) /\ ~Writes /\ ~Staging) => fills >= R(cap)
Reads == {acc[j].ln : j \in {k \in DOMAIN acc : ~acc[k].w}}
FirstReads == {x \in {acc[j].ln : j \in DOMAIN acc} : ~acc[MinOf({j \in DOMAIN acc : acc[j].ln = x})].w}
Dirty == {acc[j].ln : j \in {k \in DOMAIN acc : acc[k].w /\ ~acc[k].stg}}
Bounds == i = 0 =>
  /\ Cardinality(FirstReads) <= R(cap) /\ R(cap) <= Cardinality({j \in DOMAIN acc : ~acc[j].w})
  /\ Cardinality(Dirty) <= W(cap) /\ W(cap) <= Cardinality({j \in DOMAIN acc : acc[j].w /\ ~acc[j].stg})
  /\ (cap > 0) => R(cap) <= R(cap - 1) /\ W(cap) <= W(cap - 1)
  /\ (cap >= L + 1) => R(cap) = Cardinality(FirstReads) /\ W(cap) = Cardinality(Dirty)
(* during its own run the cache never holds more than fits, besides the staging area *)
Fits == i = 0 => \A n \in 0..Len(acc) :
  LET st == FoldLeft(LAMBDA s, j : CacheStep(acc, [k \in DOMAIN acc |-> NextUse(acc, k)], [k \in DOMAIN acc |-> k], cap, s, j), CacheInit, [j \in 1..n |-> j]) IN
  /\ Cardinality(st.c) <= cap /\ (st.c # {} => Cardinality(st.c) + Cardinality(st.pin) <= cap)
  /\ st.dirty \subseteq Lines(st.c) \cup st.pin
  /\ n = Len(acc) => st.c = {} /\ st.pin = {} /\ st.dirty = {}
(* the buffet's rule and its machine agree, within any split into two windows;   *)
(* with the whole kernel as the window it is an unbounded cache                  *)
Buffet == i = 0 => /\ \A k \in 0..Len(acc), ev \in 0..2 :
                        LET a == Stamped(k)  st == BuffetRun(a, ev) IN
                        /\ st.r = BuffetFills(a, ev) /\ st.w = BuffetWrites(a, ev) /\ st.in = {} /\ st.dirty = {}
                   /\ BuffetFills(acc, 0) = R(N + 1)
                   /\ (~Staging) => BuffetWrites(acc, 0) = W(N + 1)
MergeOk == i = 0 => \A m \in SUBSET DOMAIN acc :
  LET st == [j \in DOMAIN acc |-> [s |-> <<acc[j].ln>>, k |-> j]]
      ok(q) == \A x, y \in DOMAIN q : x < y => q[x].s[1] <= q[y].s[1]
      rd == SelectSeq(st, LAMBDA x : x.k \in m)
      wr == SelectSeq(st, LAMBDA x : x.k \notin m)
      res == Combine(rd, wr) IN
  (ok(rd) /\ ok(wr)) =>
    /\ \A x, y \in DOMAIN res : x < y => res[x].row.s[1] < res[y].row.s[1] \/ (res[x].row.s = res[y].row.s /\ (res[x].w => res[y].w))
    /\ SelectSeq(res, LAMBDA x : x.w) = [j \in DOMAIN wr |-> Tag(wr[j], TRUE)]
    /\ SelectSeq(res, LAMBDA x : ~x.w) = [j \in DOMAIN rd |-> Tag(rd[j], FALSE)]
=============================================================================
