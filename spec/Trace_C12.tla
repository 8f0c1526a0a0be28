----------------------------- MODULE Trace_C12 -----------------------------
(* Judge: equality, emptiness, counting and pruning against the content sets.  *)
EXTENDS Content, TraceBase
VARIABLE l

Same(e) == SameContent(e.a, e.da, e.b, e.db)
Pair(e) ==
  Clause("equal", e.err # "" \/ (e.eq <=> Same(e))) \cup
  Clause("equal-reversed", e.err # "" \/ (e.qe <=> Same(e))) \cup
  Clause("unequal", e.err # "" \/ (e.ne <=> ~Same(e))) \cup
  Clause("comparison-fails", e.err = "")

One(e) ==
  Clause("reflexive", e.eq) \cup
  Clause("deepcopy-equal", e.copy) \cup
  Clause("query-fails", e.err = "") \cup
  (IF e.err # "" THEN {} ELSE
   Clause("empty", e.empty <=> EmptyNode(e.a, e.da)) \cup
   Clause("count", e.count = Count(e.a, e.da)) \cup
   Clause("prune-equal", ~e.pruned \/ SameContent(e.a, e.da, e.n, e.da)) \cup
   Clause("prune-says-equal", ~e.pruned \/ e.neq) \cup
   Clause("prune-canonical", ~e.pruned \/ (e.n.k = "F" /\ Canonical(e.n, e.da) /\ PairedTree(e.n))))

Verdict(e) == (IF e.op = "pair" THEN Pair(e) ELSE One(e)) \cup Clause("timeout", e.err # "Timeout")

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
