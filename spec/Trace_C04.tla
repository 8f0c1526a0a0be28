----------------------------- MODULE Trace_C04 -----------------------------
(* Judge of recorded co-iterations.                                          *)
EXTENDS CoIter, TraceBase
VARIABLE l

OutCoords(out) == [i \in DOMAIN out |-> out[i].c]

Verdict(e) ==
  IF e.op = "deep"
  THEN Clause("error", e.err = "") \cup
       (IF e.err # "" THEN {} ELSE Clause("deepUnion", e.out = e.again /\
          LET pts == {p \in UNION {{x[1] : x \in Content(e.ops[i].t, e.ops[i].d)} : i \in DOMAIN e.ops} : TRUE}
              cs == SetToSortSeq(pts, LAMBDA p, q : LexLT(p[1] \o p[2], q[1] \o q[2]))
              At2(i, p) == LET r == ReadPoint(e.ops[i].t, p) IN IF r.k = "absent" THEN e.ops[i].d ELSE r.v
          IN e.out = [j \in DOMAIN cs |-> [c |-> cs[j], v |-> [i \in DOMAIN e.ops |-> At2(i, cs[j])]]]))
       \cup Clause("operandsUnchanged", e.post = [i \in DOMAIN e.ops |-> e.ops[i].t])
       \cup Clause("ranksUnchanged", e.book = e.book2)
  ELSE
  LET want == Eval(e.e, e.ops)
      stored == StoredIds(e.ops)
      out == e.out
      same == OutCoords(out) = OutCoords(want)
      matched == [i \in DOMAIN out |-> IF same THEN Match(out[i].p, want[i].m, e.ops, stored) ELSE TRUE]
  IN Clause("error", e.err = "")
     \cup (IF e.err # "" THEN {} ELSE
            Clause("coords", same)
            \cup Clause("payload", \A i \in DOMAIN out : matched[i])
            \cup Clause("freshDefaults",
                   same => NoDup(FoldLeft(LAMBDA acc, i : acc \o DefIds(out[i].p, want[i].m), <<>>,
                                          [i \in DOMAIN out |-> i])))
            \cup Clause("repeatable", e.again = OutCoords(out)))
     \cup Clause("operandsUnchanged", e.post = [i \in DOMAIN e.ops |-> e.ops[i].t])
     \cup Clause("ranksUnchanged", e.book = e.book2)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
