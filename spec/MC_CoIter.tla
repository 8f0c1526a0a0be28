----------------------------- MODULE MC_CoIter -----------------------------
(* Design model of the two-finger merges behind &, |, ^, -: the machine       *)
(* advances one cursor per step exactly like the loops in iterators.py, and   *)
(* its output is compared with the set-theoretic truth tables of CoIter.      *)
EXTENDS CoIter
CONSTANT N
VARIABLES op, a, b, i, j, out, done
vars == <<op, a, b, i, j, out, done>>

Lists == {SetToSortSeq(S, LAMBDA x, y : x < y) : S \in SUBSET (0..(N - 1))}
Seqs(o, L) == [k \in DOMAIN L |-> [c |-> <<L[k]>>, m |-> Own(o, 100 * o + L[k])]]

Init == /\ op \in {"and", "or", "xor", "sub"}
        /\ a \in Lists /\ b \in Lists
        /\ i = 1 /\ j = 1 /\ out = <<>> /\ done = FALSE

HasA == i <= Len(a)
HasB == j <= Len(b)
Emit(c, s) == out' = Append(out, [c |-> c, s |-> s])

Both == /\ HasA /\ HasB /\ a[i] = b[j]
        /\ i' = i + 1 /\ j' = j + 1
        /\ IF op \in {"and", "or"} THEN Emit(a[i], "AB") ELSE UNCHANGED out
        /\ UNCHANGED <<op, a, b, done>>
OnlyA == /\ HasA /\ (HasB => a[i] < b[j])
         /\ ~(op = "and" /\ ~HasB)               \* intersection stops at the first exhausted side
         /\ i' = i + 1
         /\ IF op \in {"or", "xor", "sub"} THEN Emit(a[i], "A") ELSE UNCHANGED out
         /\ UNCHANGED <<op, a, b, j, done>>
OnlyB == /\ HasB /\ (HasA => b[j] < a[i])
         /\ ~(op \in {"and", "sub"} /\ ~HasA)
         /\ j' = j + 1
         /\ IF op \in {"or", "xor"} THEN Emit(b[j], "B") ELSE UNCHANGED out
         /\ UNCHANGED <<op, a, b, i, done>>
Stop == /\ ~done /\ ~ENABLED (Both \/ OnlyA \/ OnlyB)
        /\ done' = TRUE /\ UNCHANGED <<op, a, b, i, j, out>>
Next == Both \/ OnlyA \/ OnlyB \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Want == LET sa == Seqs(1, a) sb == Seqs(2, b) IN
  CASE op = "and" -> Intersect(sa, sb)
    [] op = "or"  -> Union2(sa, sb, Def(1), Def(2))
    [] op = "xor" -> Xor2(sa, sb, Def(1), Def(2))
    [] op = "sub" -> Diff(sa, sb)

Ascends == \A k \in 1..(Len(out) - 1) : out[k].c < out[k + 1].c
PrefixOfTruth == LET w == Want IN Len(out) <= Len(w) /\ \A k \in DOMAIN out : <<out[k].c>> = w[k].c
MaskRight == \A k \in DOMAIN out :
  out[k].s = (IF \E x \in DOMAIN a : a[x] = out[k].c
              THEN IF \E x \in DOMAIN b : b[x] = out[k].c THEN "AB" ELSE "A" ELSE "B")
TruthAtEnd == done => Len(out) = Len(Want)
Terminates == <>done
=============================================================================
