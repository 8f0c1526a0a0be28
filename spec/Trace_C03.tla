----------------------------- MODULE Trace_C03 -----------------------------
(* Judge: point access against the abstract map m, carried from event to      *)
(* event.  Each event has the tree before (pre) and after (post) with object   *)
(* identities; pt is the accessed point from the root.                        *)
EXTENDS PointMap, TraceBase
VARIABLES l, m

RECURSIVE SameTree(_, _), IdsAt(_, _)
SameTree(a, b) == a.k = b.k /\ a.c = b.c /\ a.v = b.v /\ Len(a.p) = Len(b.p)
                  /\ \A i \in DOMAIN a.p : SameTree(a.p[i], b.p[i])
IdsAt(n, pre) == {<<pre, n.i>>} \cup (IF n.k = "F" THEN UNION {IdsAt(n.p[i], Append(pre, n.c[i])) : i \in DOMAIN n.c} ELSE {})

PathTo(e) == e.path \o e.pt
HintOK(e) == e.hint = <<>> \/
  LET f == ReadPoint(e.pre, e.path) IN ~Absent(f) /\ Len(e.pt) = 1 /\ ValidHint(f.c, e.pt[1], e.hint[1])
Refused(e) == e.err # "" /\ HintOK(e)
ScalarOf(n) == IF n.k \in {"B", "S"} THEN n.v ELSE <<0, 0>>

Read(e, mm) ==
  LET pt == PathTo(e)
      x == ReadPoint(e.pre, pt)
      r == e.res IN
  Clause("read-changes-tree", e.pre = e.post) \cup
  (IF e.err # "" THEN Clause("read-refused", ~Refused(e)) ELSE
   IF Len(pt) = e.D THEN
     IF Absent(x)
     THEN IF e.alloc THEN Clause("read-default", r.k \in {"B", "S"} /\ r.v = e.d)
          ELSE IF e.dflt # <<>> THEN Clause("read-caller-default", r.k \in {"B", "S"} /\ r.v = e.dflt[1])
          ELSE Clause("read-absent", r.k = "N")
     ELSE Clause("read-value", r.k \in {"B", "S"} /\ (r.v = Value(mm, pt, e.d)
                               \/ (~e.alloc /\ x.v = e.d /\ e.dflt # <<>> /\ r.v = e.dflt[1])))
   ELSE IF Absent(x) /\ ~e.alloc THEN
     (IF e.dflt # <<>> THEN Clause("read-caller-default", r.k \in {"B", "S"} /\ r.v = e.dflt[1])
      ELSE Clause("read-absent", r.k = "N"))
   ELSE Clause("read-prefix", r.k = "F" /\ Content(r, e.d) = Under(mm, pt)))

Ref(e, mm) ==
  LET pt == PathTo(e) IN
  IF e.err # "" THEN Clause("ref-refused", ~Refused(e)) \cup Clause("refused-ref-changes-tree", HintOK(e) \/ SameTree(e.pre, e.post)
                                                       \/ SameTree(e.post, WithPath(e.pre, pt, e.D, e.d, "")))
  ELSE
  Clause("ref-path", SameTree(e.post, WithPath(e.pre, pt, e.D, e.d, ""))) \cup
  Clause("ref-disturbs", IdsAt(e.pre, <<>>) \subseteq IdsAt(e.post, <<>>)) \cup
  Clause("ref-alias", LET x == ReadPoint(e.post, pt) IN ~Absent(x) /\ x.i = e.res.i) \cup
  Clause("ref-shared", Len(pt) = 0 \/ Cardinality({x \in IdsAt(e.post, <<>>) : x[2] = e.res.i}) = 1) \cup
  Clause("ref-kind", IF Len(pt) = e.D THEN e.res.k = "B" ELSE e.res.k = "F") \cup
  Clause("ref-value", IF Len(pt) = e.D THEN ScalarOf(e.res) = Value(mm, pt, e.d) ELSE Content(e.res, e.d) = Under(mm, pt))

Write(e, mm) ==
  LET pt == PathTo(e) IN
  IF e.err # "" THEN {"write-refused"} ELSE
  Clause("write-value", SameTree(e.post, SetLeaf(e.pre, pt, Update(Value(mm, pt, e.d), e.w)))) \cup
  Clause("write-objects", IdsAt(e.pre, <<>>) = IdsAt(e.post, <<>>))

Position1(e) ==
  LET f == ReadPoint(e.pre, e.path)
      p == Position(f.c, e.pt[1]) IN
  IF e.mut
  THEN IF e.err # "" THEN Clause("position-refused", ~Refused(e))
       ELSE Clause("position-ref", ~Absent(ReadPoint(e.post, PathTo(e)))
                                   /\ e.pos = Position(ReadPoint(e.post, e.path).c, e.pt[1]))
            \cup Clause("ref-path", SameTree(e.post, WithPath(e.pre, PathTo(e), e.D, e.d, "")))
            \cup Clause("ref-disturbs", IdsAt(e.pre, <<>>) \subseteq IdsAt(e.post, <<>>))
  ELSE Clause("read-changes-tree", e.pre = e.post) \cup
       (IF e.err # "" THEN Clause("position-refused", ~Refused(e))
        ELSE Clause("position", e.pos = p \/ (p >= 0 /\ e.pos = -1 /\ IsEmptyTree(f.p[p + 1], e.d))))

Outcome(e, mm) ==    \* the map after the event
  CASE e.op = "write" /\ e.err = "" -> Put(mm, PathTo(e), Update(Value(mm, PathTo(e), e.d), e.w), e.d)
    [] e.op \in {"start", "other"} -> Content(e.post, e.d)
    [] OTHER -> mm

Verdict(e, mm) ==
  (CASE e.op = "read" -> Read(e, mm)
     [] e.op = "ref" -> Ref(e, mm)
     [] e.op = "write" -> Write(e, mm)
     [] e.op = "position" -> Position1(e)
     [] OTHER -> {})
  \cup Clause("map", Content(e.post, e.d) = Outcome(e, mm))
  \cup Clause("timeout", e.err # "Timeout")

TraceInit == l = TraceStart /\ m = IF TraceStart <= TraceLen THEN Content(Trace[TraceStart].pre, Trace[TraceStart].d) ELSE {}
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l], m))
             /\ m' = Content(Trace[l].post, Trace[l].d)   \* = Outcome unless reported
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, m>>
TraceAccepted == PrintT("D|" \o ToString(TLCGet("stats").diameter - 2 + TraceStart))
=============================================================================
