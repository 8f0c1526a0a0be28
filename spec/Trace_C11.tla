----------------------------- MODULE Trace_C11 -----------------------------
(* Judge: arithmetic on boxes, elements and fibers.                            *)
EXTENDS Arith, TraceBase
VARIABLE l

(* operands e.a, e.b and the result e.got as [r: printed form, v: rational,     *)
(* x: exact]; e.want is what the operator gives on the underlying values        *)
BoxOp(e) ==
  (IF e.werr # "" THEN Clause("same-error", e.err = e.werr \/ (e.may /\ e.err = "TypeError"))
   ELSE Clause("error", e.err = "" \/ (e.may /\ e.err = "TypeError"))) \cup
  (IF e.err # "" \/ e.werr # "" THEN {} ELSE
     Clause("same-result", e.got.r = e.want) \cup
     Clause("exact-result", (Known(e.o) /\ e.a.x /\ e.b.x /\ e.got.x /\ ~Undefined(e.o, e.a.v, e.b.v))
                            => e.got.v = Apply(e.o, e.a.v, e.b.v)) \cup
     (IF e.inplace THEN Clause("same-box", e.same) \cup Clause("coordinate-kept", e.coord)
      ELSE Clause("left-operand-unchanged", e.a2 = e.a.r)) \cup
     Clause("right-operand-unchanged", e.b2 = e.b.r))

Wanted(e) ==
  LET A == Content(e.f, e.d) B == Content(e.g, e.d) IN
  CASE e.o = "+" /\ e.kind = "fiber" -> AddMaps(A, B, e.d)
    [] e.o = "*" /\ e.kind = "fiber" -> MulMaps(A, B, e.d)
    [] e.o = "+" -> AddScalar(A, e.s, e.shape, e.d)
    [] e.o = "*" -> ScaleMap(A, e.s, e.d)
FiberOp(e) ==
  Clause("error", e.err = "") \cup Clause("in-place-error", e.ierr = "") \cup
  (IF e.err # "" \/ e.ierr # "" THEN {} ELSE
     Clause("elementwise", ~e.zero \/ Content(e.res, e.d) = Wanted(e)) \cup
     Clause("reflected", ~e.zero \/ e.refl.k # "F" \/ Content(e.refl, e.d) = Wanted(e)) \cup
     Clause("in-place-agrees", Content(e.ires, e.d) = Content(e.res, e.d)) \cup
     Clause("in-place-elementwise", ~e.zero \/ Content(e.ires, e.d) = Wanted(e)) \cup
     Clause("same-fiber", e.same) \cup
     Clause("operands-unchanged", e.f2 = e.f /\ e.g2 = e.g /\ e.g3 = e.g))

Verdict(e) == IF e.op = "box" THEN BoxOp(e) ELSE FiberOp(e)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
