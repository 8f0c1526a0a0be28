----------------------------- MODULE Trace_C05 -----------------------------
(* Judge: populate loops.                                                      *)
EXTENDS Populate, Ranks, TraceBase
VARIABLE l

Loop(lp, d) ==
  LET want == IF lp.e.x = "given" THEN <<>> ELSE Eval(lp.e, lp.ops)
      y == lp.y
      n == Len(y)
      stored == StoredIds(lp.ops)
      same == [i \in DOMAIN y |-> y[i].c] = [i \in DOMAIN want |-> want[i].c]
      fits == IF n <= Len(want) THEN [i \in DOMAIN y |-> y[i].c] = [i \in DOMAIN y |-> want[i].c] ELSE FALSE
      z0 == lp.z0
  IN (IF lp.e.x = "given" THEN Clause("offered", lp.given = [i \in DOMAIN y |-> y[i].c])
      ELSE Clause("offered", IF lp.done THEN same ELSE fits) \cup
           Clause("payload", fits => \A i \in DOMAIN y : Match(y[i].a, want[i].m, lp.ops, stored)))
     \cup Clause("shows-current", \A i \in DOMAIN y :
            StripI(y[i].z) = StripI(Shown(z0, lp.h, d, y[i].c)))
     \cup Clause("is-reference", \A i \in DOMAIN y :
            /\ Has(z0, y[i].c) => y[i].z.i = At(z0, y[i].c).i
            /\ ~Has(z0, y[i].c) => y[i].z.i \notin AllIds(z0))
     \cup Clause("written", \A i \in DOMAIN y : y[i].w.k # "none" =>
            (y[i].end.k = "B" /\ y[i].end.v = WriteV(y[i].z.v, y[i].w, y[i].av)))
     \cup Clause("left-alone", \A i \in DOMAIN y : y[i].alone => StripI(y[i].end) = StripI(y[i].z))
     \cup (IF ~lp.done THEN {} ELSE
           Clause("untouched", Untouched(z0, lp.z1, y)) \cup
           Clause("leftover", NoLeftovers(lp.z1, d, y)) \cup
           Clause("lost-write", Kept(lp.z1, d, y)) \cup
           Clause("stray", NoStrays(z0, lp.z1, y)) \cup
           Clause("content", Content(lp.z1, d) =
                  Content(Override(z0, d, [i \in DOMAIN y |-> [c |-> y[i].c, z |-> y[i].end]]), d)))

Member(t, b) == IF b = <<>> THEN {} ELSE Clause("ranks", BookOK(t, b[1]))
Verdict(e) ==
  Clause("error", e.err = "") \cup
  UNION {Loop(e.loops[i], e.d) : i \in DOMAIN e.loops} \cup
  Clause("source-modified", e.a0 = e.a1) \cup
  Clause("well-formed", WellFormed(e.z1)) \cup
  Clause("depth", LeavesAt(e.z1, e.D)) \cup
  Member(e.z1, e.book) \cup
  UNION {Clause("well-formed-during", WellFormed(e.mids[i].t)) \cup Member(e.mids[i].t, e.mids[i].b) : i \in DOMAIN e.mids} \cup
  UNION {Member(e.sbook[i].t, e.sbook[i].b) : i \in DOMAIN e.sbook} \cup
  (IF e.pure /\ e.err = ""
   THEN Clause("composed", Content(e.z1, e.d) = Content(Populate(StripI(e.z0), e.D, e.d, Elements(e.a0[1], e.d), e.acts), e.d))
   ELSE {})

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
