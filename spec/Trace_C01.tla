----------------------------- MODULE Trace_C01 -----------------------------
(* Judge: well-formedness after every operation, and rejected operations.     *)
EXTENDS FTMachine, TraceBase
VARIABLE l

WF(n, D) == WellFormed(n) /\ LeavesAt(n, D)
Judged == {"append", "extend", "setitem", "updcoords", "insert"}

Verdict(e) ==
  IF e.op = "construct"
  THEN Clause("constructor", e.err # "" \/ (WellFormed(e.post) /\ (e.D > 0 => LeavesAt(e.post, e.D))))
       \cup Clause("constructorFails", e.legal => e.err = "")
  ELSE IF e.op # "start" /\ ~(PairedTree(e.pre) /\ WF(e.pre, e.D)) THEN {}   \* broken by an earlier event
  ELSE Clause("paired", PairedTree(e.post))
  \cup Clause("sorted", PairedTree(e.post) => SortedTree(e.post))
  \cup Clause("kinds", PairedTree(e.post) => KindsOK(e.post))
  \cup Clause("depth", PairedTree(e.post) => (UniformDepth(e.post) /\ LeavesAt(e.post, e.D)))
  \cup Clause("sourceWellFormed", e.src = <<>> \/ (PairedTree(e.src[2]) /\ SortedTree(e.src[2])))
  \cup Clause("rejectedChangesNothing",
         (e.err # "" /\ e.op \in Judged /\ WF(e.pre, e.D) /\ Violates(e.pre, e.d, e.a)) =>
             Strip(e.post) = Strip(e.pre))
  \cup Clause("timeout", e.err # "Timeout")

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
