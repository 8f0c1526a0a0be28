----------------------------- MODULE Trace_C17 -----------------------------
(* Judge: traffic, filtering and combination against Traffic.tla.              *)
EXTENDS Traffic, TraceBase
VARIABLE l

(* ---- from bindings and trace rows to accesses ---- *)
RankOf(e, t, r) == LET i == CHOOSE i \in DOMAIN e.ranks : e.ranks[i].t = t /\ e.ranks[i].id = r IN e.ranks[i]
LoopsOf(e, t) == {e.ranks[i].loop : i \in {j \in DOMAIN e.ranks : e.ranks[j].t = t}}
Bits(rk, ty) == CASE ty = "coord" -> rk.cb [] ty = "payload" -> rk.pb [] ty = "elem" -> rk.cb + rk.pb
PosOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Depth(e, b) == PosOf(e.order, RankOf(e, b.t, b.r).loop)
Access(e, b, x) ==
  LET rk == RankOf(e, b.t, b.r)
      epl == e.line \div Bits(rk, b.ty)
      mine == {i \in 1..(Depth(e, b) - 1) : e.order[i] \in LoopsOf(e, b.t)} IN
  [t |-> b.t, ln |-> <<b.t, b.r, b.ty, [i \in mine |-> x.row.p[i]], x.row.pos \div epl>>, w |-> x.w,
   stg |-> b.hasw /\ x.row.pos >= rk.shape, s |-> x.row.s]
Accesses(e, b) == LET c == Combine(b.reads, b.writes) IN [i \in DOMAIN c |-> Access(e, b, c[i])]
Window(e, b) == IF b.ev = "root" THEN 0 ELSE PosOf(e.order, b.evloop)

Sum(S, F(_)) == FoldLeft(LAMBDA acc, x : acc + F(x), 0, S)
Tensors(e) == {e.binds[i].t : i \in DOMAIN e.binds}
Of(e, t) == SelectSeq(e.binds, LAMBDA b : b.t = t)
BuffetCharge(e, t) == [r |-> Sum(Of(e, t), LAMBDA b : BuffetFills(Accesses(e, b), Window(e, b))),
                       w |-> Sum(Of(e, t), LAMBDA b : BuffetWrites(Accesses(e, b), Window(e, b)))]
(* known finding: a binding evicted on its own rank, called by its own name, is *)
(* charged for its writes to the staging area                                  *)
OwnRank(b) == b.ev = b.r
Unstaged(e, b) == LET a == Accesses(e, b) IN IF OwnRank(b) THEN [i \in DOMAIN a |-> [a[i] EXCEPT !.stg = FALSE]] ELSE a
OwnCharge(e, t) == Sum(Of(e, t), LAMBDA b : BuffetWrites(Unstaged(e, b), Window(e, b)))
(* time: the stamp, an outer loop's access before those of the loops inside it, *)
(* then the order of the bindings; the trace's own order within a binding       *)
Pad(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE -1]
Timed(e) == FoldLeft(LAMBDA acc, d : FoldLeft(LAMBDA a2, i :
              IF Depth(e, e.binds[i]) # d THEN a2
              ELSE LET x == Accesses(e, e.binds[i])  b == Len(a2) IN
                   Append(a2, [j \in DOMAIN x |-> [a |-> x[j], k |-> Pad(x[j].s, Len(e.order)) \o <<b, j>>]]), acc, [i \in DOMAIN e.binds |-> i]), <<>>, [d \in DOMAIN e.order |-> d])
Ordered(e) == LET x == SortSeq(FlattenSeq(Timed(e)), LAMBDA p, q : LexLT(p.k, q.k)) IN x
Plain(x) == [i \in DOMAIN x |-> x[i].a]
Keys(x) == [i \in DOMAIN x |-> SubSeq(x[i].k, 1, Len(x[i].k) - 1)]
ChargeOf(acc, st, t) ==
  [r |-> Cardinality({i \in st.r : acc[i].t = t}), w |-> Cardinality({x \in st.wb : x[2][1] = t})]

Got(run, t) == LET i == {j \in DOMAIN run.res : run.res[j].t = t} IN IF i = {} THEN [r |-> 0, w |-> 0] ELSE LET x == run.res[CHOOSE j \in i : TRUE] IN [r |-> x.r, w |-> x.w]
Agrees(e, run, acc, st) == \A t \in Tensors(e) : LET g == Got(run, t)  x == ChargeOf(Plain(acc), st, t) IN g.r = x.r * e.line /\ g.w = x.w * e.line
CoarseOnly(e, run, acc) == /\ ~Agrees(e, run, acc, CacheRun(Plain(acc), run.cap \div e.line))
                           /\ Agrees(e, run, acc, CacheCoarse(Plain(acc), Keys(acc), run.cap \div e.line))
Run(e, run, acc) ==
  Clause(run.kind \o "-error", run.err = "") \cup
  (IF run.err # "" THEN {} ELSE
   Clause("temporary-files", run.left = <<>>) \cup Clause("inputs-untouched", run.kept) \cup
   IF run.kind = "cache" /\ CoarseOnly(e, run, acc) THEN {"KF:cache-tie"} ELSE
   LET st == IF run.kind = "cache" THEN CacheRun(Plain(acc), run.cap \div e.line) ELSE <<>> IN
   UNION {LET g == Got(run, t)
              x == IF run.kind = "buffet" THEN BuffetCharge(e, t) ELSE ChargeOf(Plain(acc), st, t) IN
          Clause(run.kind \o "-fills", g.r = x.r * e.line) \cup
          (IF run.kind = "buffet" /\ g.w # x.w * e.line /\ g.w = OwnCharge(e, t) * e.line THEN {"KF:evict-own-rank"}
           ELSE Clause(run.kind \o "-writebacks", g.w = x.w * e.line)) : t \in Tensors(e)})
Caches(e) == {i \in DOMAIN e.runs : e.runs[i].kind = "cache" /\ e.runs[i].err = ""}
Buf(e) ==
  LET acc == IF \E i \in DOMAIN e.runs : e.runs[i].kind = "cache" THEN Ordered(e) ELSE <<>>
      all(i) == Sum(SetToSeq(Tensors(e)), LAMBDA t : Got(e.runs[i], t).r) IN
  UNION {Run(e, e.runs[i], acc) : i \in DOMAIN e.runs} \cup
  Clause("cache-monotone", (\E i \in Caches(e) : CoarseOnly(e, e.runs[i], acc)) \/ \A i, j \in Caches(e) : e.runs[i].cap < e.runs[j].cap => all(i) >= all(j))

Filt(e) == Clause("filter-error", e.err = "") \cup
  (IF e.err # "" THEN {} ELSE Clause("filter-header", e.keeps) \cup Clause("filter-rows", e.out = Filter(e.rows, e.filter)))
Comb(e) == Clause("combine-error", e.err = "") \cup
  (IF e.err # "" THEN {} ELSE Clause("combine-header", e.keeps) \cup
   Clause("combine-rows", e.out = Combine(e.reads, e.writes)))

Verdict(e) == CASE e.op = "buf" -> Buf(e) [] e.op = "filter" -> Filt(e) [] e.op = "combine" -> Comb(e)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
