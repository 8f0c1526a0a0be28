----------------------------- MODULE Trace_C13 -----------------------------
(* Judge: conversions between representations.                                 *)
EXTENDS Convert, TraceBase
VARIABLE l

(* building from a nest e.nest with default e.d, and back *)
Build(e) ==
  Clause("build-error", e.err = "") \cup
  (IF e.err # "" THEN {} ELSE
    Clause("content", Content(e.tree, e.d) = NestContent(e.nest, e.d)) \cup
    Clause("well-formed", e.nest.k = "V" \/ (WellFormed(e.tree) /\ LeavesAt(e.tree, Len(Dims(e.nest))))) \cup
    Clause("explicit-defaults", e.nest.k = "V" \/ Bare(e.tree, e.d)) \cup
    Clause("shape", e.shape = Dims(e.nest)) \cup
    Clause("rank-ids", e.ids = e.wids) \cup
    Clause("name", e.name = e.wname) \cup
    (IF e.nest.k = "V" THEN {} ELSE
      Clause("uncompress-error", e.uerr = "") \cup
      Clause("uncompress", e.uerr # "" \/ e.back = e.nest) \cup
      Clause("uncompress-padded", e.perr # "" \/ e.pad = Expand(NestContent(e.nest, e.d), e.pshape, e.d, <<>>)) \cup
      Clause("uncompress-padded-error", e.perr = "")))

(* dumping and loading *)
Round(e) ==
  Clause("round-error", e.err = "") \cup
  (IF e.err # "" THEN {} ELSE
    Clause("round-content", Content(e.t1, e.d1) = Content(e.t0, e.d0)) \cup
    Clause("round-coordinates", e.nokinds \/ e.g1 = e.g0) \cup
    Clause("round-depth", e.t0.k # "F" \/ e.depth = 0 \/ LeavesAt(e.t1, e.depth)) \cup
    Clause("round-equal", e.eq) \cup
    Clause("round-rank-ids", e.ids1 = e.ids0) \cup
    Clause("round-shape", e.sh1 = e.sh0) \cup
    Clause("round-name", e.name1 = e.name0))

(* random construction: t1, t2 are two results for the same arguments *)
Random(e) ==
  Clause("random-error", e.err = "") \cup
  (IF e.err # "" THEN {} ELSE
    LET P == Points(e.shape)
        C1 == Cells(Stored(e.t1)) IN
    Clause("reproducible", e.t1 = e.t2) \cup
    Clause("random-well-formed", WellFormed(e.t1) /\ LeavesAt(e.t1, Len(e.shape))) \cup
    Clause("inside-shape", C1 \subseteq P) \cup
    Clause("declared-shape", e.dsh = <<>> \/ e.dsh = e.shape) \cup
    Clause("full-at-density-1", ~e.full \/ C1 = P) \cup
    Clause("full-content", ~e.full \/ Cells(Content(e.t1, e.d)) = P))

Verdict(e) == CASE e.op = "build" -> Build(e) [] e.op = "round" -> Round(e) [] e.op = "random" -> Random(e)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
