----------------------------- MODULE Trace_C19 -----------------------------
EXTENDS Intersect, TraceBase, TLC
VARIABLE l

(* totals of the fibers 1..n *)
Count(x, f) ==
  LET pa == IF f.lf THEN f.a ELSE Presented(f.a, f.b)
      pb == IF f.lf THEN f.a ELSE Presented(f.b, f.a) IN
  CASE x = "two-finger" -> TwoFinger(f.a, f.b)
    [] x = "skip-ahead" -> SkipAhead(f.a, f.b)
    [] x = "leader" -> Len(pa)
    [] x = "follower" -> Len(pb)
UpTo(x, fs, n) == FoldLeft(LAMBDA a, f : a + Count(x, f), 0, SubSeq(fs, 1, n))
(* u: calls <<how many fibers were complete, what was reported>> *)
Unit(fs, u) ==
  Clause(u.x \o "-error", u.err = "") \cup
  Clause(u.x, \A i \in DOMAIN u.got : u.got[i][2] = UpTo(u.x, fs, u.got[i][1]))
Verdict(e) ==
  CASE e.op = "isect" -> Clause("error", e.err = "") \cup UNION {Unit(e.fs, e.us[i]) : i \in DOMAIN e.us}
    [] e.op = "swaps" ->
         UNION {Clause("swaps-error", e.qs[i].err = "") \cup
                (IF e.qs[i].err # "" THEN {} ELSE
                 Clause("swaps", e.qs[i].res = Swaps(e.tree, e.qs[i].d, e.qs[i].radix, e.qs[i].unb, e.qs[i].lat))) : i \in DOMAIN e.qs}
         \cup Clause("payload-values", \A i \in DOMAIN e.qs : e.qs[i].err = "" => e.qs[i].other = e.qs[i].res)
         \cup Clause("left-alone", e.after)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
