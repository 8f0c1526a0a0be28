----------------------------- MODULE Trace_C07 -----------------------------
(* Judge: traversals.                                                          *)
EXTENDS Traverse, Ranks, TraceBase
VARIABLE l

RECURSIVE StripJ(_)
StripJ(n) == [k |-> n.k, c |-> n.c, p |-> [i \in DOMAIN n.p |-> StripJ(n.p[i])], v |-> n.v, g |-> n.g]
OutC(out) == [i \in DOMAIN out |-> out[i].c]
Books(e) == UNION {IF e.book[i] = <<>> THEN {} ELSE Clause("ranks", BookOK(e.book[i][1].t, e.book[i][1].b)) : i \in DOMAIN e.book}

Iter(e) ==
  LET full == EvalT(e.e, e.ops)
      want == IF e.take < 0 THEN full ELSE SubSeq(full, 1, Min2(e.take, Len(full)))
      out == e.out
      same == OutC(out) = OutC(want)
      full0 == IF e.rep THEN PresentOne(1, e.ops[1]) ELSE <<>>
      pre == [i \in DOMAIN e.ops |-> e.ops[i].t]
      stored == StoredIds(e.ops)
      cs == OutC(want)
      (* reference variants: patterns against the trees afterwards *)
      opsR == [i \in DOMAIN e.ops |-> [e.ops[i] EXCEPT !.t = e.post[i]]]
      wantR == LET f == EvalT(e.e, opsR) IN SubSeq(f, 1, Min2(Len(want), Len(f)))
  IN Clause("error", e.err = "" \/ e.mayrefuse) \cup
     (IF e.err # "" THEN {} ELSE
        Clause("coords", same \/ e.rep) \cup
        Clause("slice", ~e.rep \/ \A i \in DOMAIN out : \E j \in i..Len(full0) :
                          /\ out[i].c = full0[j].c
                          /\ i = 1 \/ LexLT(out[i - 1].c, out[i].c)) \cup
        (IF ~same \/ e.rep THEN {} ELSE
           IF e.ref
           THEN Clause("inserts", \A i \in DOMAIN e.ops :
                       StripJ(e.post[i]) = StripJ(InsertAll(pre[i], e.h, e.ops[i].d, cs))) \cup
                Clause("keeps", \A i \in DOMAIN e.ops : KeptIds(pre[i], e.post[i])) \cup
                Clause("payload", \A i \in DOMAIN out : Match(out[i].p, wantR[i].m, opsR, {}))
           ELSE Clause("payload", \A i \in DOMAIN out : Match(out[i].p, want[i].m, e.ops, stored))) \cup
        Clause("repeatable", e.again = OutC(out) /\ e.againp = [i \in DOMAIN out |-> StripJ(out[i].p)]) \cup
        (IF e.eager.k # "F" THEN {} ELSE
           LET ne == SelectSeq(out, LAMBDA x : ~IsEmptyTree(x.p, e.ops[1].d)) IN
           Clause("eager-coords", e.eager.c = OutC(ne)) \cup
           Clause("eager-payloads", e.eager.c = OutC(ne) =>
              \A j \in DOMAIN ne : Content(e.eager.p[j], e.ops[1].d) = Content(ne[j].p, e.ops[1].d)) \cup
           Clause("eager-equal", e.eq))) \cup
     (IF e.ref THEN {} ELSE Clause("operands-unchanged", \A i \in DOMAIN e.ops : e.post[i] = pre[i])) \cup
     Books(e)

(* ascending ranges, each starting at the position saved by the one before *)
Chain(e) ==
  Clause("error", e.err = "") \cup
  UNION {LET s == e.steps[i]
             valid == ValidStart(e.t, e.d, s.lo, s.sp)
             want == RangeSeq(1, [t |-> e.t, d |-> e.d, fmt |-> "C"], s.lo, s.hi)
         IN Clause("shortcut", ~valid \/ s.look \/ s.out = OutC(want)) \cup
            Clause("saved-valid", ~valid \/ s.hi = <<>> \/ ValidStart(e.t, e.d, s.hi, s.saved)) :
         i \in DOMAIN e.steps} \cup
  Clause("operands-unchanged", e.post = e.t)

(* a shortcut on any single traversal *)
Verdict(e) == IF e.op = "chain" THEN Chain(e) ELSE Iter(e)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
