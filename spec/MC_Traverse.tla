----------------------------- MODULE MC_Traverse -----------------------------
(* Design model of traversal: a cursor walks the stored elements from a saved   *)
(* position and clips to the range, remembering the position of what it yields; *)
(* ranges follow each other in ascending order. Also: projection as executed    *)
(* (reversed walk, skip below the interval, stop at its end), and dense         *)
(* traversal inserting as it goes, against their definitions.                   *)
EXTENDS Traverse, TLC
CONSTANTS N, NR       \* coordinates, ranges in a chain
d0 == <<0, 1>>
C == 0..(N - 1)
Srt(S) == SetToSortSeq(S, <)
Nd(v, i) == [k |-> "B", c |-> <<>>, p |-> <<>>, v |-> <<v, 1>>, g |-> "", i |-> i]
Trees == {LET q == Srt({c \in C : f[c] > 0}) IN
          [k |-> "F", c |-> [j \in DOMAIN q |-> <<q[j]>>], p |-> [j \in DOMAIN q |-> Nd(f[q[j]] - 1, j)],
           v |-> <<0, 1>>, g |-> "i", i |-> 0] : f \in [C -> 0..2]}
X(t) == [t |-> t, d |-> d0, up |-> "no", fmt |-> "C", act |-> <<0, N>>]

VARIABLES t, lo, hi, cur, sp, saved, out, pc, n
vars == <<t, lo, hi, cur, sp, saved, out, pc, n>>
Init == /\ t \in {x \in Trees : x.c # <<>>}
        /\ \E a \in 0..N : \E b \in a..(N + 1) : lo = a /\ hi = b
        /\ sp \in 0..(Len(t.c) - 1) /\ ValidStart(t, d0, <<lo>>, sp)
        /\ cur = sp /\ saved = sp /\ out = <<>> /\ pc = "walk" /\ n = 1
Step1 == /\ pc = "walk"
         /\ IF cur >= Len(t.c) \/ t.c[cur + 1][1] >= hi
            THEN pc' = "done" /\ UNCHANGED <<cur, saved, out>>
            ELSE /\ cur' = cur + 1 /\ pc' = pc
                 /\ IF t.c[cur + 1][1] >= lo /\ t.p[cur + 1].v # d0
                    THEN saved' = cur /\ out' = Append(out, t.c[cur + 1])
                    ELSE UNCHANGED <<saved, out>>
         /\ UNCHANGED <<t, lo, hi, sp, n>>
Again == /\ pc = "done" /\ n < NR
         /\ lo' = hi /\ hi' \in hi..(N + 1) /\ sp' = saved /\ cur' = saved /\ out' = <<>> /\ pc' = "walk" /\ n' = n + 1
         /\ UNCHANGED <<t, saved>>
Next == Step1 \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Step1)

OutOf(s) == [i \in DOMAIN s |-> s[i].c]
RangeIsSlice == pc = "done" => out = OutOf(RangeSeq(1, X(t), <<lo>>, <<hi>>))
PrefixAlways == IsPrefix(out, OutOf(RangeSeq(1, X(t), <<lo>>, <<hi>>)))
SavedStaysValid == pc = "done" => ValidStart(t, d0, <<hi>>, saved)

(* projection as executed *)
RECURSIVE Walk(_, _, _, _)
Walk(s, tr, iv, j) ==
  IF j > Len(s) THEN <<>>
  ELSE LET c == Trans(tr, s[j].c) IN
       IF iv # <<>> /\ ~LexLT(c, iv[2]) THEN <<>>
       ELSE IF iv = <<>> \/ LexLE(iv[1], c) THEN <<[c |-> c, m |-> s[j].m]>> \o Walk(s, tr, iv, j + 1)
       ELSE Walk(s, tr, iv, j + 1)
Exec(s, tr, iv) ==
  LET rev == LexLT(Trans(tr, <<1>>), Trans(tr, <<0>>)) IN Walk(IF rev THEN Reverse(s) ELSE s, tr, iv, 1)
AtStart == pc = "walk" /\ n = 1 /\ cur = sp /\ sp = 0 /\ out = <<>>
ProjectAgrees ==
  AtStart => \A s \in {-2, -1, 1, 2} : \A o \in {-1, 0, 2} :
     LET tr == [k |-> "affine", s |-> s, o |-> o] q == PresentOne(1, X(t)) IN
     /\ Exec(q, tr, <<>>) = ProjectSeq(q, tr, <<>>)
     /\ Exec(q, tr, <<<<lo>>, <<hi>>>>) = ProjectSeq(q, tr, <<<<lo>>, <<hi>>>>)
(* inserting while walking *)
RECURSIVE InsWalk(_, _, _)
InsWalk(m, c, b) == IF c >= b THEN m
                    ELSE InsWalk(IF Has(m, <<c>>) THEN m ELSE PutElem(m, <<c>>, Nd(0, 99), "i"), c + 1, b)
Bare(m) == [m EXCEPT !.p = [i \in DOMAIN m.p |-> m.p[i].v]]
InsertAgrees ==
  AtStart => LET m == InsWalk(t, lo, hi)
                 r == [t EXCEPT !.p = [i \in DOMAIN t.p |-> Box(t.p[i].v)]] IN
     /\ Bare(m) = Bare(InsertAll(r, 1, d0, Steps(lo, hi, 1)))
     /\ Content(m, d0) = Content(t, d0)
     /\ OutOf(DenseSeq(1, X(m), lo, hi, 1)) = OutOf(DenseSeq(1, X(t), lo, hi, 1))
     /\ \A c \in lo..(hi - 1) : Has(m, <<c>>)
Terminates == <>[](pc = "done")
=============================================================================
