----------------------------- MODULE Trace_C16 -----------------------------
(* Judge: the traces of a loop nest, against what its loop instances accessed. *)
EXTENDS Access, MetricsApi, TraceBase
VARIABLE l

(* all the rows of trace (k, ty) demanded by the instances, in order, as <<pre, <<c, i>>>> *)
IterRows(n) == [i \in DOMAIN n.b |-> <<n.b[i], IF n.x.t = "src" THEN IndexOf(n.x.e, n.b[i])
                                                  ELSE IF n.x.t = "get" /\ n.x.a[1].t = "src" THEN IndexOf(n.x.a[1].e, n.b[i]) ELSE i - 1>>]
Own(n, ty, k) ==
  IF ty = "ref" THEN IF n.r = k THEN n.ref ELSE <<>>
  ELSE IF ty = "iter" THEN IF n.r = k THEN IterRows(n) ELSE <<>>
  ELSE LET rs == SelectSeq(Rows(n.x, n.r, 0, All).r, LAMBDA x : x.ty = ty /\ x.k = k) IN
       IF rs = <<>> THEN <<>> ELSE rs[1].rows
Want(e, ty, k) ==
  FoldLeft(LAMBDA acc, n : acc \o (LET w == Own(n, ty, k) IN [i \in DOMAIN w |-> <<n.pre, w[i]>>]), <<>>, e.insts)

Coords(t, w) == \A i \in DOMAIN w : t.rows[i].co = Append(w[i][1], w[i][2][1])
Positions(t, w) == \A i \in DOMAIN w : w[i][2][2] = -1 \/ t.rows[i].pos = w[i][2][2]

(* destination traces, one instance at a time *)
DestOf(n, ty) == SelectSeq(Dests(n.x, 0), LAMBDA x : ty \in {Name("populate_read_", x[1]), Name("populate_write_", x[1])})
IsDest(e, ty, k) == \E n \in {e.insts[i] : i \in DOMAIN e.insts} : n.r = k /\ DestOf(n, ty) # <<>>
DestOK(e, t) ==
  LET ns == SelectSeq(e.insts, LAMBDA n : n.r = t.k /\ DestOf(n, t.ty) # <<>>) IN
  /\ \A i \in DOMAIN t.rows : \E j \in DOMAIN ns : SubSeq(t.rows[i].co, 1, Len(t.rows[i].co) - 1) = ns[j].pre
  /\ \A j \in DOMAIN ns :
       LET d == DestOf(ns[j], t.ty)[1]
           z == d[2]
           read == t.ty = Name("populate_read_", d[1])
           got == SelectSeq(t.rows, LAMBDA x : SubSeq(x.co, 1, Len(x.co) - 1) = ns[j].pre)
           w == IF read THEN Reads(z) ELSE Writes(z) IN
       IF Inserting(z)
       THEN /\ \A i \in DOMAIN w : \E m \in DOMAIN got : got[m].co = Append(ns[j].pre, w[i][1])
            /\ \A m \in DOMAIN got : LET c == got[m].co[Len(got[m].co)] IN
                 c \in {z.s[i] : i \in DOMAIN z.s} \cup {z.b[i].c : i \in DOMAIN z.b}
       ELSE Len(got) = Len(w) /\ \A i \in DOMAIN w : Match(got[i], ns[j].pre, w[i])

Trace1(e, t) ==
  LET L == Len(t.loops)
      never == t.header = <<>> /\ t.rows = <<>> IN     \* the traced rank was never reached
  Clause("header", \/ t.header = [i \in 1..(2 * L + 1) |-> IF i <= L THEN t.loops[i] \o "_pos" ELSE IF i <= 2 * L THEN t.loops[i - L] ELSE "fiber_pos"]
                   \/ (never /\ ~(\E i \in DOMAIN e.insts : e.insts[i].r = t.loops[L]))) \cup
  Clause("row-shape", \A i \in DOMAIN t.rows : Len(t.rows[i].st) = L /\ Len(t.rows[i].co) = L) \cup
  Clause("stamps", Stamped(t.rows)) \cup
  Clause("stamps-strict", t.ty # "iter" \/ StrictlyStamped(t.rows)) \cup
  (IF IsDest(e, t.ty, t.k) THEN Clause("destination", DestOK(e, t))
   ELSE LET w == Want(e, t.ty, t.k) IN
        IF Len(w) # Len(t.rows) THEN {"row-count"}
        ELSE Clause("coordinates", Coords(t, w)) \cup (IF Coords(t, w) THEN Clause("positions", Positions(t, w)) ELSE {}))

Run(e) ==
  Clause("trace-error", e.err = "") \cup
  (IF e.err # "" THEN {} ELSE
    UNION {Trace1(e, e.traces[i]) : i \in DOMAIN e.traces} \cup
    Clause("flush", \A i \in DOMAIN e.traces : \A j \in DOMAIN e.traces[i].alts : e.traces[i].alts[j] = e.traces[i].raw) \cup
    Clause("consumable", \A i \in DOMAIN e.traces : \A j \in DOMAIN e.traces[i].mem : e.traces[i].mem[j] = e.traces[i].raw))

(* ---- Fiber.trace: the subtree of a fiber, one row per non-empty element ---- *)
RECURSIVE Paths(_, _, _)
Paths(n, pre, d) ==   \* rows of level d below the fiber n (a sequence of elements)
  LET m == SelectSeq(n, LAMBDA x : x.n) IN
  IF d = 1 THEN [i \in DOMAIN m |-> <<Append(pre, m[i].c), m[i].i>>]
  ELSE FoldLeft(LAMBDA acc, x : acc \o Paths(x.k, Append(pre, x.c), d - 1), <<>>, m)
Eager1(e, d) ==
  LET t == e.traces[d]
      L == t.at[d]                                     \* the loop rank of level d
      w == Paths(e.tree, <<>>, d) IN
  Clause("header", t.header = [i \in 1..(2 * L + 1) |-> IF i <= L THEN e.loops[i] \o "_pos" ELSE IF i <= 2 * L THEN e.loops[i - L] ELSE "fiber_pos"]) \cup
  Clause("row-shape", \A i \in DOMAIN t.rows : Len(t.rows[i].st) = L /\ Len(t.rows[i].co) = L) \cup
  Clause("stamps", Stamped(t.rows)) \cup
  (IF Len(w) # Len(t.rows) THEN {"row-count"}
   ELSE IF \E i \in DOMAIN t.rows : Len(t.rows[i].co) # L THEN {}
   ELSE Clause("coordinates", \A i \in DOMAIN w : [j \in 1..d |-> t.rows[i].co[t.at[j]]] = w[i][1]) \cup
        Clause("positions", \A i \in DOMAIN w : t.rows[i].pos = w[i][2]))
Eager(e) == Clause("trace-error", e.err = "") \cup
            (IF e.err # "" THEN {} ELSE UNION {Eager1(e, d) : d \in DOMAIN e.traces})

(* ---- one tensor, every rank traversed in a mode of its own ---- *)
(* elements n.e = <<[c, n]>> (coordinate, non-empty) before the loop; mode n.m; -1: no position *)
Dense(n) == n.m.x \in {"shape", "ashape", "rshape", "shaperef", "ashaperef", "rshaperef"}
Refs(n) == n.m.x \in {"shaperef", "ashaperef", "rshaperef"}
Bounded01(n, c) == n.m.x \in {"default", "occ"} \/ (n.m.lo <= c /\ c < n.m.hi)
Stored(n) == {n.e[i].c : i \in DOMAIN n.e}
Below(n, c) == Cardinality({x \in Stored(n) : x < c})
DenseAt(n) == [j \in 1..((n.m.hi - n.m.lo + n.m.st - 1) \div n.m.st) |-> n.m.lo + (j - 1) * n.m.st]
Visits(n) ==
  IF ~Dense(n)
  THEN LET ix == SelectSeq([i \in DOMAIN n.e |-> i], LAMBDA i : n.e[i].n /\ Bounded01(n, n.e[i].c)) IN
       [j \in DOMAIN ix |-> <<n.e[ix[j]].c, ix[j] - 1>>]
  ELSE LET cs == IF n.m.hi <= n.m.lo THEN <<>> ELSE DenseAt(n) IN
       [j \in DOMAIN cs |-> <<cs[j],
          IF Refs(n) THEN Below(n, cs[j]) + Cardinality({i \in 1..(j - 1) : cs[i] \notin Stored(n)})   \* those just inserted
          ELSE IF cs[j] \in Stored(n) THEN Below(n, cs[j]) ELSE -1>>]
TravWant(e, k) ==
  FoldLeft(LAMBDA acc, n : IF n.r # k THEN acc ELSE acc \o (LET w == Visits(n) IN [i \in DOMAIN w |-> <<n.pre, w[i]>>]), <<>>, e.insts)
Trav1(e, t) ==
  LET L == Len(t.loops)
      w == TravWant(e, t.k)
      never == t.header = <<>> /\ t.rows = <<>> IN
  Clause("header", \/ t.header = [i \in 1..(2 * L + 1) |-> IF i <= L THEN t.loops[i] \o "_pos" ELSE IF i <= 2 * L THEN t.loops[i - L] ELSE "fiber_pos"]
                   \/ (never /\ ~(\E i \in DOMAIN e.insts : e.insts[i].r = t.loops[L]))) \cup
  Clause("row-shape", \A i \in DOMAIN t.rows : Len(t.rows[i].st) = L /\ Len(t.rows[i].co) = L) \cup
  Clause("stamps-strict", StrictlyStamped(t.rows)) \cup
  Clause("consumable", \A i \in DOMAIN t.mem : t.mem[i] = t.raw) \cup
  (IF Len(w) # Len(t.rows) THEN {"row-count"}
   ELSE Clause("coordinates", Coords(t, w)) \cup (IF Coords(t, w) THEN Clause("positions", Positions(t, w)) ELSE {}))
TravRun(e) == Clause("trace-error", e.err = "") \cup
              (IF e.err # "" THEN {} ELSE UNION {Trav1(e, e.traces[i]) : i \in DOMAIN e.traces})

Verdict(e) == CASE e.op = "nest" -> Run(e)
                  [] e.op = "api" -> ApiBad(e.ops, e.cap)
                  [] e.op = "trav" -> TravRun(e)
                  [] e.op = "eager" -> Eager(e)

TraceInit == l = TraceStart
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
