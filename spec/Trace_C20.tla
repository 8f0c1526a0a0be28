----------------------------- MODULE Trace_C20 -----------------------------
EXTENDS Codec, TraceBase
VARIABLE l

Expect(e, L, d, j, q) == LET s == ScanFrom(L, d, j, q) IN
  [i \in DOMAIN s |-> <<s[i][1], IF d = Len(e.desc) THEN e.out.ranks[d].v[s[i][2] + 1] ELSE s[i][2]>>]
Fiber(e, L, d, j) ==
  LET f == e.fibers[d][j]
      cs == L[d][j].cs IN
  Clause("fiber-error", f.err = "") \cup
  (IF f.err # "" THEN {} ELSE
    UNION {LET s == f.scans[i] IN
           Clause("scan-coordinates", [k \in DOMAIN s.got |-> s.got[k][1]] = [k \in DOMAIN Expect(e, L, d, j, s.base) |-> Expect(e, L, d, j, s.base)[k][1]]) \cup
           Clause("scan-payloads", s.got = Expect(e, L, d, j, s.base)) : i \in DOMAIN f.scans} \cup
    Clause("lookup", e.desc[d] = "C" => \A i \in DOMAIN f.look : f.look[i][2] = Lookup(cs, f.look[i][1])) \cup
    Clause("size", f.size = Size(e.desc, e.dims, L, d, j)))
Verdict(e) ==
  Clause("error", e.err = "") \cup
  (IF e.err # "" THEN {} ELSE
   LET L == Levels(e.desc, e.dims, e.out) IN
   Clause("layout", L # Bad /\ (L # Bad => Proper(L, e.dims))) \cup
   (IF L = Bad THEN {} ELSE
     Clause("content", Decoded(L, e.out) = Content(e.tree, Zero)) \cup
     Clause("fibers", Len(e.fibers) = Len(L) /\ \A d \in DOMAIN L : d \in DOMAIN e.fibers => Len(e.fibers[d]) = Len(L[d])) \cup
     UNION {UNION {Fiber(e, L, d, j) : j \in DOMAIN L[d] \cap DOMAIN e.fibers[d]} : d \in DOMAIN L \cap DOMAIN e.fibers}))

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
