----------------------------- MODULE Trace_C15 -----------------------------
(* Judge: collection changes nothing, counts what happened, and starts clean.   *)
EXTENDS Kernel, MetricsApi, TraceBase
VARIABLE l

OpSet(o) == [v |-> o.v, s |-> {<<o.s[i][1], o.s[i][2]>> : i \in DOMAIN o.s}]

(* ---- one kernel, with collection off, on, and on again after other sessions ---- *)
Counts(x) == [mul |-> x.mul, add |-> x.add, upd |-> x.upd]
Predicted(e) ==
  LET ops == [i \in DOMAIN e.ops |-> OpSet(e.ops[i])]
      leads == [i \in DOMAIN e.order |-> {e.leads[i][j] : j \in DOMAIN e.leads[i]}]
      bs == Bodies(e.order, ops, leads, <<>>) IN
  [ops |-> BodyOps(e.order, ops, e.out, leads, e.body, e.filt),
   iters |-> [i \in DOMAIN e.order |-> Len(SelectSeq(bs, LAMBDA p : Len(p) = i))]]
(* what this run reported, against what it executed *)
Reported(e, r) ==
  Clause("op-counts", r.rep = r.did) \cup
  Clause("iteration-counts", \A i \in DOMAIN r.iters : r.iters[i].n = r.bodies[r.iters[i].d])
Model(e, r) ==
  IF ~e.model THEN {} ELSE
  LET p == Predicted(e) IN
  Clause("predicted-ops", r.rep = Counts(p.ops)) \cup
  Clause("predicted-iterations", \A i \in DOMAIN r.iters : r.iters[i].n = p.iters[r.iters[i].d])
Kern1(e) ==
  Clause("off-error", e.offerr = "") \cup
  (IF e.offerr # "" THEN {} ELSE
   Clause("on-error", \A i \in DOMAIN e.on : e.on[i].err = "") \cup
   (IF \E i \in DOMAIN e.on : e.on[i].err # "" THEN {} ELSE
    Clause("transparent-result", \A i \in DOMAIN e.on : e.on[i].z = e.off.z) \cup
    Clause("transparent-operands", \A i \in DOMAIN e.on : e.on[i].ops = e.off.ops) \cup
    Clause("transparent-execution", \A i \in DOMAIN e.on : e.on[i].did = e.off.did /\ e.on[i].bodies = e.off.bodies) \cup
    UNION {Reported(e, e.on[i]) \cup Model(e, e.on[i]) : i \in DOMAIN e.on} \cup
    Clause("isolated-counts", \A i \in DOMAIN e.on : e.on[i].dump = e.on[1].dump) \cup
    Clause("isolated-traces", \A i \in DOMAIN e.on : e.on[i].traces = e.on[1].traces /\ e.on[i].mem = e.on[1].mem)))

(* ---- a history of payload operations ---- *)
OpCount(o) ==
  CASE o.k \in {"add", "radd"} -> [mul |-> 0, add |-> 1, upd |-> 0]
    [] o.k \in {"mul", "rmul"} -> [mul |-> 1, add |-> 0, upd |-> 0]
    [] o.k = "iadd" -> [mul |-> 0, add |-> IF o.old # 0 THEN 1 ELSE 0, upd |-> 1]
    [] o.k = "imul" -> [mul |-> 1, add |-> 0, upd |-> 1]
    [] o.k = "assign" -> [mul |-> 0, add |-> 0, upd |-> 1]
    [] OTHER -> [mul |-> 0, add |-> 0, upd |-> 0]      \* comparisons and reads
OpValue(o) ==
  CASE o.k \in {"add", "radd", "iadd"} -> o.old + o.arg
    [] o.k \in {"mul", "rmul", "imul"} -> o.old * o.arg
    [] o.k = "assign" -> o.arg
    [] o.k = "neq" -> IF o.old # o.arg THEN 1 ELSE 0
    [] o.k = "lt" -> IF o.old < o.arg THEN 1 ELSE 0
Plus(a, b) == [mul |-> a.mul + b.mul, add |-> a.add + b.add, upd |-> a.upd + b.upd]
Arith(e) ==
  Clause("op-counts", e.rep = FoldLeft(LAMBDA acc, o : IF o.on THEN Plus(acc, OpCount(o)) ELSE acc, [mul |-> 0, add |-> 0, upd |-> 0], e.ops)) \cup
  Clause("op-value", \A i \in DOMAIN e.ops : e.ops[i].res = OpValue(e.ops[i]))

Verdict(e) == CASE e.op = "kernel" -> Kern1(e)
                [] e.op = "arith" -> Arith(e)
                [] e.op = "isolated" -> Clause("not-isolated", e.a = e.b)
                [] e.op = "api" -> ApiBad(e.ops, e.cap)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
