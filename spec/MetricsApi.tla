----------------------------- MODULE MetricsApi -----------------------------
(* Judge: a history of calls of the collector's public operations.  Each call   *)
(* o carries what it returned in o.out; rows are sequences of strings.  The     *)
(* state is that of Metrics.tla; hd holds the in-memory traces whose header has *)
(* been delivered.                                                              *)
EXTENDS Metrics, SequencesExt

Txt(row) == [i \in DOMAIN row |-> ToString(row[i])]
(* a log whose first row is the header (when hdr) as text *)
LogTxt(q, hdr) == [i \in DOMAIN q |-> IF i = 1 /\ hdr THEN q[i] ELSE Txt(q[i])]

Apply(s, o) ==
  CASE o.op = "begin" -> BeginOp(s)
    [] o.op = "end" -> EndOp(s)
    [] o.op = "trace" -> TraceOp(s, o.r, o.ty, o.cons)
    [] o.op = "match" -> MatchOp(s, o.r, o.r2)
    [] o.op = "register" -> RegisterOp(s, o.r)
    [] o.op = "use" -> UseOp(s, o.r, IF o.t = <<>> THEN o.c ELSE OffsetOf(s.shp[o.r], o.t), o.pos, o.ty, o.it)
    [] o.op = "shape" -> ShapeOp(s, o.r, o.it)
    [] o.op = "inc" -> IncOp(s, o.r)
    [] o.op = "enditer" -> EndIterOp(s, o.r)
    [] o.op = "label" -> LabelOp(s, o.r)
    [] o.op = "count" -> CountOp(s, o.r, o.ty, o.pos)
    [] o.op = "cap" -> CapOp(s, o.pos)
    [] o.op = "consume" -> ConsumeOp(s, o.r, o.ty)
    [] o.op \in {"iter", "index", "traced", "collecting", "dump", "file"} -> s

Dump(s) == {<<k[1], k[2], s.cnt[k]>> : k \in DOMAIN s.cnt}
Answer(s, hd, o) ==
  CASE o.op = "label" -> IF o.out = LabelOf(s, o.r) THEN "" ELSE "label"
    [] o.op = "consume" -> IF o.out = LogTxt(s.tr[<<o.r, o.ty>>].mem, <<o.r, o.ty>> \notin hd) THEN "" ELSE "consumed-rows"
    [] o.op = "iter" -> IF o.out = s.iter THEN "" ELSE "iteration"
    [] o.op = "index" -> IF o.out = Level(s, o.r) - 1 THEN "" ELSE "level"
    [] o.op = "traced" -> IF o.out = (<<o.r, o.ty>> \in DOMAIN s.tr) THEN "" ELSE "traced"
    [] o.op = "collecting" -> IF o.out = s.coll THEN "" ELSE "collecting"
    [] o.op = "dump" -> IF {<<x.a, x.b, x.n>> : x \in ToSet(o.out)} = Dump(s) THEN "" ELSE "dump"
    [] o.op = "file" -> IF o.out = LogTxt(File(s, <<o.r, o.ty>>), TRUE) THEN "" ELSE "file-rows"
    [] OTHER -> ""
Stamp1(acc, o) ==
  LET k == <<o.r, o.ty>> IN
  [s |-> Apply(acc.s, o),
   hd |-> IF o.op = "begin" THEN {} ELSE IF o.op = "consume" /\ acc.s.tr[k].mem # <<>> THEN acc.hd \cup {k} ELSE acc.hd,
   bad |-> LET x == Answer(acc.s, acc.hd, o) IN IF x = "" THEN acc.bad ELSE acc.bad \cup {x}]
ApiBad(ops, cap) == FoldLeft(Stamp1, [s |-> Clean(cap), hd |-> {}, bad |-> {}], ops).bad
=============================================================================
