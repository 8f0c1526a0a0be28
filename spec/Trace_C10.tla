----------------------------- MODULE Trace_C10 -----------------------------
(* Judge: value-returning operations leave operands as they were and return   *)
(* results that share nothing mutable with them; observers change nothing.    *)
EXTENDS Alias, FT, TraceBase
VARIABLE l

(* e.ops: one record per operand: raw0/raw1 (tree, rank lists before/after),  *)
(* pre/post (everything observable), objs, later (after the result mutated);  *)
(* e.res: objs, now, later (after the operands mutated)                       *)
Value(e) ==
  UNION {LET o == e.ops[i] IN
         Clause("operand-tree", o.raw0 = o.raw1) \cup
         Clause("operand-attributes", o.pre = o.post) \cup
         Clause("shares", e.err # "" \/ Disjoint(o.objs, e.res.objs)) \cup
         Clause("leaks-into-operand", o.later = o.post)
         : i \in DOMAIN e.ops} \cup
  Clause("leaks-into-result", e.res.later = e.res.now)

Verdict(e) ==
  CASE e.op = "value" -> Value(e)
    [] e.op = "read" -> Clause("tree-changed", e.pre = e.post)
    [] e.op = "render" -> Clause("tree-changed", e.pre = e.post) \cup
                          Clause("image-differs", e.im1 = e.im2)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
