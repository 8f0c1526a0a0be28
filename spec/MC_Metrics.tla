----------------------------- MODULE MC_Metrics -----------------------------
(* Design model: loop nests over two ranks driving the collector, with any      *)
(* subset of traces, matched ranks, flush thresholds, consumption at any time,  *)
(* aborted sessions and several sessions in a row.                              *)
EXTENDS Metrics
CONSTANTS MaxBody, MaxSess, MaxUse, AllTraces
VARIABLES s, st, log, got, sess, n, uses
vars == <<s, st, log, got, sess, n, uses>>
(* st: the stack of open loops, innermost last: [r, b] rank and bodies begun.   *)
Types == {"iter", "x"}
TKeys == {<<"K", "iter">>, <<"M", "iter">>, <<"M", "x">>, <<"W", "x">>}
FileSets == IF AllTraces THEN SUBSET TKeys ELSE {{}, {<<"M", "iter">>, <<"M", "x">>}, {<<"K", "iter">>, <<"W", "x">>}}
LoopsAt == <<"K", "M">>

Init == /\ \E c \in {2, 3} : s = Clean(c)
        /\ st = <<>> /\ log = <<>> /\ got = <<>> /\ sess = 0 /\ n = 0 /\ uses = 0

LogStart(t, ks) == [k \in DOMAIN t |-> t[k]] @@ [k \in ks |-> <<>>]
(* ghost log: everything each trace should have said *)
Ghost(s1, s2, r, row, ty) == IF <<r, ty>> \in DOMAIN s1.tr THEN Put(log, <<r, ty>>, Append(log[<<r, ty>>], row)) ELSE log
Headers(s2, l) == [k \in DOMAIN s2.tr |-> IF s2.tr[k].st /\ l[k] = <<>> THEN <<Header(s2, k[1])>> ELSE l[k]]

Begin == /\ sess < MaxSess
         /\ \E fs \in FileSets, ms \in SUBSET {<<"M", "x">>}, w \in BOOLEAN :
              LET b == BeginOp(s)
                  b1 == IF w THEN MatchOp(b, "M", "W") ELSE b
                  RECURSIVE Add(_, _, _)
                  Add(x, ks, c) == IF ks = {} THEN x ELSE LET k == CHOOSE y \in ks : TRUE IN Add(TraceOp(x, k[1], k[2], c), ks \ {k}, c)
                  b2 == Add(Add(b1, fs, FALSE), ms, TRUE) IN
              /\ s' = b2
              /\ log' = [k \in DOMAIN b2.tr |-> <<>>]
              /\ got' = [k \in DOMAIN b2.tr |-> <<>>]
         /\ st' = <<>> /\ sess' = sess + 1 /\ n' = 0 /\ uses' = 0

Enter == /\ s.coll /\ Len(st) < 2
         /\ (st = <<>> => n = 0)
         /\ (st # <<>> => st[1].in /\ ~st[1].sub)      \* one inner loop per body
         /\ LET r == LoopsAt[Len(st) + 1]
                s2 == RegisterOp(s, r) IN
            /\ s' = s2 /\ log' = Headers(s2, log)
            /\ st' = Append([i \in DOMAIN st |-> [st[i] EXCEPT !.sub = TRUE]], [r |-> r, b |-> 0, in |-> FALSE, sub |-> FALSE])
         /\ n' = 1 /\ UNCHANGED <<got, sess, uses>>

Top == st[Len(st)]
CurRow(r, c, pos) == LET i == Level(s, r) IN
  SubSeq(s.iter, 1, i) \o SubSeq(s.point, 1, i - 1) \o <<c, pos>>
(* the next element of the innermost loop: its use is recorded, the body runs *)
Body == /\ s.coll /\ st # <<>> /\ ~Top.in /\ Top.b < MaxBody
        /\ LET c == Top.b IN
           /\ s' = UseOp(s, Top.r, c, c, "iter", <<>>)
           /\ log' = Ghost(s, s', Top.r, CurRow(Top.r, c, c), "iter")
           /\ st' = [st EXCEPT ![Len(st)].b = @ + 1, ![Len(st)].in = TRUE, ![Len(st)].sub = FALSE]
        /\ uses' = 0
        /\ UNCHANGED <<got, sess, n>>
(* an access by the expression the loop walks *)
Access == /\ s.coll /\ st # <<>> /\ ~Top.in /\ uses < MaxUse
          /\ \E r \in {Top.r} \cup {x \in {"W"} : x \in DOMAIN s.at /\ s.at[x] = Top.r} :
               /\ s' = UseOp(s, r, Top.b, Top.b, "x", <<>>)
               /\ log' = Ghost(s, s', r, CurRow(r, Top.b, Top.b), "x")
          /\ uses' = uses + 1
          /\ UNCHANGED <<st, got, sess, n>>
Done == /\ s.coll /\ st # <<>> /\ Top.in
        /\ s' = IncOp(s, Top.r)
        /\ st' = [st EXCEPT ![Len(st)].in = FALSE]
        /\ UNCHANGED <<log, got, sess, n, uses>>
Exit == /\ s.coll /\ st # <<>> /\ ~Top.in
        /\ s' = EndIterOp(s, Top.r)
        /\ st' = SubSeq(st, 1, Len(st) - 1)
        /\ UNCHANGED <<log, got, sess, n, uses>>
Consume == /\ s.coll
           /\ \E k \in {x \in DOMAIN s.tr : s.tr[x].m /\ s.tr[x].mem # <<>>} :
                /\ got' = [got EXCEPT ![k] = @ \o s.tr[k].mem]
                /\ s' = ConsumeOp(s, k[1], k[2])
           /\ UNCHANGED <<st, log, sess, n, uses>>
End == /\ s.coll /\ \A k \in DOMAIN s.tr : s.tr[k].m => s.tr[k].mem = <<>>
       /\ s' = EndOp(s) /\ UNCHANGED <<st, log, got, sess, n, uses>>
Next == Begin \/ Enter \/ Body \/ Access \/ Done \/ Exit \/ Consume \/ End

Data(q) == SubSeq(q, 2, Len(q))
Stamp(k, row) == SubSeq(row, 1, IF k[1] = "K" THEN 1 ELSE 2)
FileComplete == \A k \in DOMAIN s.tr : s.tr[k].f => File(s, k) = log[k]
MemComplete == \A k \in DOMAIN s.tr : s.tr[k].m => got[k] \o s.tr[k].mem = log[k]
Bounded == \A k \in DOMAIN s.tr : Len(s.tr[k].buf) < s.cap + 1
Ordered == \A k \in DOMAIN log : LET d == Data(log[k]) IN
             \A i \in 1..(Len(d) - 1) :
               LET a == Stamp(k, d[i])  b == Stamp(k, d[i + 1]) IN
               RowLT(a, b) \/ (k[2] # "iter" /\ a = b)
Flushed == ~s.coll => \A k \in DOMAIN s.tr : s.tr[k].f => s.tr[k].disk = log[k]
Fresh == [][s'.coll /\ sess' # sess => s'.order = <<>> /\ s'.iter = <<>> /\ s'.cnt = <<>> /\ s'.lab = <<>>
                                       /\ \A k \in DOMAIN s'.tr : s'.tr[k].disk = <<>> /\ s'.tr[k].buf = <<>>]_vars
=============================================================================
