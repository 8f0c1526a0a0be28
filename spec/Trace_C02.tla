----------------------------- MODULE Trace_C02 -----------------------------
(* Judge: a tensor's ranks mirror its fibertree.                              *)
EXTENDS Ranks, TraceBase
VARIABLE l

Check(pfx, t, b) ==
  Clause(pfx \o "stale", NoneStale(t, b)) \cup
  Clause(pfx \o "missing", NoneMissing(t, b)) \cup
  Clause(pfx \o "each-once", EachOnce(b)) \cup
  Clause(pfx \o "owner", Owners(t, b)) \cup
  Clause(pfx \o "chained", Chained(b)) \cup
  Clause(pfx \o "root", RootFirst(t, b)) \cup
  Clause(pfx \o "depth", NoDeeper(t, b))

(* a per-rank quantity derived from the lists, against the tree *)
Derived(e) ==
  Clause("stats-cleared", \A i \in DOMAIN e.stats : e.stats[i] = 0) \cup
  Clause("rank-printed", \A i \in DOMAIN e.printed : e.printed[i] = Len(FibersAt(e.post, i - 1))) \cup
  Clause("rank-footprint", \A i \in DOMAIN e.foot : e.foot[i] = Len(FibersAt(e.post, i - 1)))

Verdict(e) ==
  CASE e.op = "derived" -> Derived(e)
    [] e.op = "xform" ->
         (IF e.res.k = "T" THEN Check("result-", e.res.tree, e.res.book) ELSE {}) \cup
         (IF e.post.k = "T" THEN Check("operand-", e.post.tree, e.post.book) ELSE {}) \cup
         UNION {Check("other-", e.others[i].tree, e.others[i].book) : i \in DOMAIN e.others}
    [] OTHER -> (* a step of a mutation history *)
         IF e.book = <<>> \/ (e.op # "start" /\ ~BookOK(e.pre, e.book[1])) THEN {}
         ELSE Check("", e.post, e.book[2])

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
