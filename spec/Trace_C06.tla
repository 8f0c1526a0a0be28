----------------------------- MODULE Trace_C06 -----------------------------
(* Judge: the result of a kernel is the dense result of its expression.        *)
EXTENDS Kernel, TraceBase
VARIABLE l

OpSet(o) == [v |-> o.v, s |-> {<<o.s[i][1], o.s[i][2]>> : i \in DOMAIN o.s}]
SumOf(q, r) == FoldLeft(LAMBDA acc, i : acc + q[i], 0, r)
VarOf(m, q) == IF m.rel THEN SumOf(q, m.r) ELSE q[m.r[Len(m.r)]]
ZSet(e) == {<<[i \in DOMAIN e.map |-> VarOf(e.map[i], x[1])], x[2]>> : x \in Points(e.z)}
InTiles(e) == \A x \in Points(e.z) : \A i \in DOMAIN e.map :
                e.map[i].s > 0 => x[1][e.map[i].r[1]] = TileOf(VarOf(e.map[i], x[1]), e.map[i].s)

Run(e) ==
  Clause("kernel-error", e.err = "") \cup
  (IF e.err # "" THEN {} ELSE
    LET ops == [i \in DOMAIN e.ops |-> OpSet(e.ops[i])] IN
    Clause("operand-content", \A i \in DOMAIN e.trees : Points(e.trees[i]) = ops[i].s) \cup
    (IF ~(Integral(e.z) /\ LeavesAt(e.z, e.depth)) THEN {"result-kind"} ELSE
      Clause("result", ZSet(e) = Result(ops, e.out)) \cup
      Clause("result-tiles", InTiles(e)) \cup
      Clause("result-unique", Cardinality(ZSet(e)) = Cardinality(Points(e.z)))))

Verdict(e) == CASE e.op = "kernel" -> Run(e)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
