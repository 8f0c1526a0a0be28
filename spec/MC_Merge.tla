------------------------------ MODULE MC_Merge ------------------------------
(* The merge model on every small sequence of lists.                            *)
EXTENDS Intersect, TLC
CONSTANTS N, L
VARIABLE ls
Init == ls \in UNION {[1..n -> {SetToSortSeq(S, <) : S \in (SUBSET (0..(N - 1))) \ {{}}}] : n \in 0..L}
Spec == Init /\ [][UNCHANGED ls]_ls
RECURSIVE RoundsOf(_, _)
RoundsOf(n, r) == IF n <= 1 THEN 0 ELSE 1 + RoundsOf((n + r - 1) \div r, r)
T == Total(ls)
(* every element passes once through each round *)
Finite == \A r \in 2..(L + 1) : LET c == Rounds(ls, r, FALSE, 1) IN
            /\ c >= T * RoundsOf(Len(ls), r)
            /\ c <= (T + Len(ls)) * RoundsOf(Len(ls), r)
            /\ Rounds(ls, r, FALSE, 7) = 7 * c
            /\ Rounds(ls, 0, FALSE, 1) <= c
One == /\ (Len(ls) > 1 => Rounds(ls, 0, FALSE, 1) = T + Len(ls))
       /\ (Len(ls) <= 1 => \A r \in 0..3 : Rounds(ls, r, FALSE, 1) + Rounds(ls, r, TRUE, 1) = 0)
(* each element is inserted once into at most Len(ls) - 1 heads *)
Unbounded == Len(ls) > 1 => /\ T <= Rounds(ls, 0, TRUE, 1)
                            /\ Rounds(ls, 0, TRUE, 1) <= T * Len(ls)
                            /\ \A r \in L..(L + 1) : Rounds(ls, r, TRUE, 1) = Rounds(ls, 0, TRUE, 1)
(* sorted, disjoint lists: inserting the head of list i passes the i - 1 before it *)
Sorted == (Len(ls) > 1 /\ \A i \in 1..(Len(ls) - 1) : Last(ls[i]) < ls[i + 1][1]) =>
            Rounds(ls, 0, TRUE, 1) = T + (Len(ls) * (Len(ls) - 1)) \div 2
=============================================================================
