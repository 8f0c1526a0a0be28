---------------------------- MODULE MC_Intersect ----------------------------
(* The intersection models on every pair of lists; the rows of consecutive      *)
(* fibers delivered in batches; and the merge models on every small set of      *)
(* lists.                                                                       *)
EXTENDS Intersect, TLC
CONSTANTS N, F          \* coordinates 0..N-1; F consecutive fibers
Lists == {SetToSortSeq(S, <) : S \in SUBSET (0..(N - 1))}
VARIABLES fs, sent, pend, count
vars == <<fs, sent, pend, count>>
(* A unit sees rows <<fiber, coordinate>> of both operands in batches that end   *)
(* with a fiber, and separates the fibers of a batch by itself.                  *)
Key(i) == {<<i, c>> : c \in 0..(N - 1)}
Rows(i) == [a |-> [j \in DOMAIN Presented(fs[i][1], fs[i][2]) |-> <<i, Presented(fs[i][1], fs[i][2])[j]>>],
            b |-> [j \in DOMAIN Presented(fs[i][2], fs[i][1]) |-> <<i, Presented(fs[i][2], fs[i][1])[j]>>]]
Of(rows, i) == LET s == SelectSeq(rows, LAMBDA x : x[1] = i) IN [j \in DOMAIN s |-> s[j][2]]
Groups(p) == {p.a[j][1] : j \in DOMAIN p.a} \cap {p.b[j][1] : j \in DOMAIN p.b}
SumOver(S, Op(_)) == FoldSet(LAMBDA x, a : a + Op(x), 0, S)
Init == /\ fs \in [1..F -> Lists \X Lists]
        /\ sent = 0 /\ pend = [a |-> <<>>, b |-> <<>>] /\ count = [tf |-> 0, sa |-> 0, lf |-> 0]
Collect == /\ sent < F
           /\ sent' = sent + 1
           /\ pend' = [a |-> pend.a \o Rows(sent + 1).a, b |-> pend.b \o Rows(sent + 1).b]
           /\ UNCHANGED <<fs, count>>
Feed == /\ pend' = [a |-> <<>>, b |-> <<>>]
        /\ count' = [tf |-> count.tf + SumOver(Groups(pend), LAMBDA i : TwoFinger(Of(pend.a, i), Of(pend.b, i))),
                     sa |-> count.sa + SumOver(Groups(pend), LAMBDA i : SkipAhead(Of(pend.a, i), Of(pend.b, i))),
                     lf |-> count.lf + Len(pend.a)]
        /\ UNCHANGED <<fs, sent>>
Spec == Init /\ [][Collect \/ Feed]_vars
(* whatever the batches, the totals are those of the raw lists *)
Batch == (sent = F /\ pend.a = <<>> /\ pend.b = <<>>) =>
           count = [tf |-> SumOver(1..F, LAMBDA i : TwoFinger(fs[i][1], fs[i][2])),
                    sa |-> SumOver(1..F, LAMBDA i : SkipAhead(fs[i][1], fs[i][2])),
                    lf |-> SumOver(1..F, LAMBDA i : Len(Presented(fs[i][1], fs[i][2])))]
Set(x) == {x[i] : i \in DOMAIN x}
Bounds == LET A == fs[1][1]
              B == fs[1][2]
              m == Cardinality(Set(A) \cap Set(B)) IN
          /\ Matches(A, B) = m
          /\ m <= SkipAhead(A, B) /\ SkipAhead(A, B) <= TwoFinger(A, B)
          /\ TwoFinger(A, B) <= Len(A) + Len(B) - m
          /\ SkipAhead(A, B) = SkipAhead(B, A) /\ TwoFinger(A, B) = TwoFinger(B, A)
          (* closed form: whatever is not beyond the end of the other list *)
          /\ TwoFinger(A, B) = (IF A = <<>> \/ B = <<>> THEN 0 ELSE
               LET e == Min2(Last(A), Last(B)) IN Cardinality({c \in Set(A) \cup Set(B) : c <= e}))
          /\ Len(Presented(A, B)) <= Len(A)
          /\ TwoFinger(Presented(A, B), Presented(B, A)) = TwoFinger(A, B)
=============================================================================
