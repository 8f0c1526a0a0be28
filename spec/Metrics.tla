------------------------------ MODULE Metrics ------------------------------
(* The metrics collector as a state machine over its public operations.        *)
(* A session is Begin ... End; a Begin also drops whatever an unfinished       *)
(* session left.  Each traced (rank, type) has a file part (disk \o buf) and   *)
(* an in-memory part (got \o mem); a row is iteration[1..i] \o point[1..i-1]   *)
(* \o <<coord, pos>> where i is the level of the rank in the loop order.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoTrace == [f |-> FALSE, m |-> FALSE, st |-> FALSE, disk |-> <<>>, buf |-> <<>>, mem |-> <<>>]
Clean(cap) == [coll |-> FALSE, order |-> <<>>, iter |-> <<>>, point |-> <<>>, eq |-> {}, at |-> <<>>,
               lab |-> <<>>, tr |-> <<>>, cnt |-> <<>>, shp |-> <<>>, cap |-> cap]

Put(f, k, v) == (k :> v) @@ f
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
PosIn(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
In(s, x) == \E i \in DOMAIN s : s[i] = x

(* the class of ranks matched with r *)
Class(s, r) == LET h == {c \in s.eq : r \in c} IN IF h = {} THEN {r} ELSE CHOOSE c \in h : TRUE
(* a rank is known when it is a loop rank or stands for one *)
Known(s, r) == In(s.order, r) \/ r \in DOMAIN s.at
Loop(s, r) == IF In(s.order, r) THEN r ELSE s.at[r]
Level(s, r) == PosIn(s.order, Loop(s, r))

Header(s, r) == LET L == Level(s, r) IN
  [i \in 1..(2 * L + 1) |-> IF i <= L THEN s.order[i] \o "_pos" ELSE IF i <= 2 * L THEN s.order[i - L] ELSE "fiber_pos"]
Keys(s, r) == {k \in DOMAIN s.tr : k[1] = r}
StartTrace(s, k) ==
  LET t == s.tr[k]  h == <<Header(s, k[1])>> IN
  [s EXCEPT !.tr[k] = [t EXCEPT !.st = TRUE, !.disk = IF t.f THEN <<>> ELSE @,
                                !.buf = IF t.f THEN @ \o h ELSE @, !.mem = IF t.m THEN @ \o h ELSE @]]
RECURSIVE StartAll(_, _)
StartAll(s, ks) == IF ks = {} THEN s ELSE LET k == CHOOSE x \in ks : TRUE IN StartAll(StartTrace(s, k), ks \ {k})
RECURSIVE Attach(_, _, _)
Attach(s, rs, loop) ==   \* ranks rs now stand for the loop rank
  IF rs = {} THEN s
  ELSE LET r == CHOOSE x \in rs : TRUE IN
       Attach(StartAll([s EXCEPT !.at = Put(@, r, loop)], Keys(s, r)), rs \ {r}, loop)
Waiting(s, c) == {r \in c : ~Known(s, r)}

(* ---- operations: each gives the next state; the result is in .out ---- *)
BeginOp(s) == [Clean(s.cap) EXCEPT !.coll = TRUE]
EndOp(s) ==
  LET done == [k \in DOMAIN s.tr |-> [s.tr[k] EXCEPT !.disk = IF s.tr[k].f THEN @ \o s.tr[k].buf ELSE @, !.buf = <<>>]] IN
  [s EXCEPT !.tr = done, !.coll = FALSE]
TraceOp(s, r, ty, cons) ==
  LET k == <<r, ty>>
      t == Get(s.tr, k, NoTrace)
      h == IF Known(s, r) THEN <<Header(s, r)>> ELSE <<>> IN
  IF (IF cons THEN t.m ELSE t.f) THEN s
  ELSE [s EXCEPT !.tr = Put(@, k, IF cons THEN [t EXCEPT !.m = TRUE, !.mem = h, !.st = Known(s, r)]
                                  ELSE [t EXCEPT !.f = TRUE, !.buf = h, !.disk = <<>>, !.st = Known(s, r)])]
MatchOp(s, a, b) ==
  LET c == Class(s, a) \cup Class(s, b)
      s2 == [s EXCEPT !.eq = {x \in @ : x \cap c = {}} \cup {c}]
      ls == {r \in c : In(s.order, r)} IN
  IF ls = {} THEN s2 ELSE LET lr == CHOOSE x \in ls : TRUE IN Attach(s2, Waiting(s2, c), lr)
RegisterOp(s, r) ==
  IF In(s.order, r) THEN s
  ELSE LET s2 == [s EXCEPT !.order = Append(@, r), !.iter = Append(@, 0), !.point = Append(@, 0), !.lab = Put(@, r, 0)]
           s3 == StartAll(s2, Keys(s2, r)) IN
       Attach(s3, Waiting(s3, Class(s3, r)), r)
FlushT(t, cap) == IF t.f /\ Len(t.buf) >= cap THEN [t EXCEPT !.disk = @ \o t.buf, !.buf = <<>>] ELSE t
AddRow(s, r, row, ty) ==
  LET k == <<r, ty>> IN
  IF k \notin DOMAIN s.tr THEN s
  ELSE LET t == s.tr[k]
           t2 == [t EXCEPT !.buf = IF t.f THEN Append(@, row) ELSE @, !.mem = IF t.m THEN Append(@, row) ELSE @] IN
       [s EXCEPT !.tr[k] = FlushT(t2, s.cap)]
UseOp(s, r, c, pos, ty, it) ==    \* it: the stamp, or <<>> for the current one
  LET i == Level(s, r)
      s2 == IF In(s.order, r) THEN [s EXCEPT !.point[i] = c] ELSE s
      stamp == SubSeq(IF it = <<>> THEN s.iter ELSE it, 1, i)
      row == stamp \o SubSeq(s2.point, 1, i - 1) \o <<c, pos>> IN
  AddRow(s2, r, row, ty)
(* a coordinate of several parts is recorded as its offset in the rank's shape *)
ShapeOp(s, r, sh) == [s EXCEPT !.shp = Put(@, r, sh)]
RECURSIVE OffsetOf(_, _)
OffsetOf(sh, c) == IF c = <<>> THEN 0 ELSE OffsetOf(SubSeq(sh, 1, Len(sh) - 1), SubSeq(c, 1, Len(c) - 1)) * sh[Len(sh)] + c[Len(c)]
IncOp(s, r) == [s EXCEPT !.iter[Level(s, r)] = @ + 1]
EndIterOp(s, r) == [s EXCEPT !.iter[Level(s, r)] = 0, !.lab = Put(@, r, 0)]
LabelOf(s, r) == Get(s.lab, Loop(s, r), 0)
LabelOp(s, r) == [s EXCEPT !.lab = Put(@, Loop(s, r), LabelOf(s, r) + 1)]
CountOp(s, line, m, n) == [s EXCEPT !.cnt = Put(@, <<line, m>>, Get(s.cnt, <<line, m>>, 0) + n)]
CapOp(s, n) == [s EXCEPT !.cap = n]
ConsumeOp(s, r, ty) == [s EXCEPT !.tr[<<r, ty>>].mem = <<>>]
File(s, k) == s.tr[k].disk \o s.tr[k].buf

RECURSIVE RowLT(_, _)
RowLT(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE RowLT(Tail(a), Tail(b))
=============================================================================
