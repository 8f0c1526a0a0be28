----------------------------- MODULE Trace_C18 -----------------------------
EXTENDS Footprint, TraceBase
VARIABLE l

Ask(e, q) ==
  LET d == q.rank IN
  CASE q.k = "rank" -> RankBits(e.tree, e.sp, e.sh, d)
    [] q.k = "root" -> RootBits(e.root)
    [] q.k = "tensor" -> TensorBits(e.tree, e.sp, e.sh, e.root)
    [] q.k = "fiber" -> PointFiberBits(e.tree, e.sp, e.sh, q.pt)
    [] q.k = "sub" -> SubTreeBits(e.tree, e.def, e.sp, e.sh, q.pt)
    [] q.k \in {"cbits", "pbits", "fhbits", "rhbits"} -> Field(e.sp[d], q.k)
    [] q.k = "coord" -> Field(e.sp[d], "cbits")
    [] q.k = "payload" -> Field(e.sp[d], "pbits")
    [] q.k = "elem" -> ElemBits(e.sp[d])
    [] q.k = "format" -> IF Format(e.sp[d]) = "C" THEN 0 ELSE 1
    [] q.k = "layout" -> IF Layout(e.sp[d]) = "contiguous" THEN 0 ELSE 1
Name(q) == CASE q.k \in {"rank", "root", "tensor", "fiber", "sub"} -> q.k \o "-footprint" [] OTHER -> "field"
Verdict(e) ==
  Clause("error", e.err = "") \cup
  UNION {Clause(Name(e.qs[i]) \o "-error", e.qs[i].err = "") \cup
         (IF e.qs[i].err # "" THEN {} ELSE Clause(Name(e.qs[i]), e.qs[i].res = Ask(e, e.qs[i]))) : i \in DOMAIN e.qs} \cup
  Clause("queries-change-nothing", e.after)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
