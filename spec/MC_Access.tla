----------------------------- MODULE MC_Access -----------------------------
(* Design check of the access model: every pair of operands over 0..N-1, every *)
(* number of elements a consumer asks for.                                     *)
EXTENDS Access
CONSTANT N
VARIABLES A, B, d, ph
vars == <<A, B, d, ph>>
SetToSeqAsc(S) == LET RECURSIVE F(_)
                      F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m}) IN F(S)
Str(S) == LET q == SetToSeqAsc(S) IN [i \in DOMAIN q |-> <<q[i], i - 1>>]
Init == /\ A \in SUBSET (0..(N - 1)) /\ B \in SUBSET (0..(N - 1)) /\ d \in 0..(2 * N) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<A, B, d>>
a == Str(A)
b == Str(B)
Elems(q) == {q[i] : i \in DOMAIN q}
IsPrefix2(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Delivers == /\ Walk(a, b, All, FALSE).o = SetToSeqAsc(A \cap B)
            /\ Walk(a, b, All, TRUE).o = SetToSeqAsc(A \cup B)
(* a full union touches everything; an intersection touches, on each side, a    *)
(* prefix that contains every match                                             *)
Touches == /\ Walk(a, b, All, TRUE).ra = a /\ Walk(a, b, All, TRUE).rb = b
           /\ \A w \in {Walk(a, b, All, FALSE)} :
                /\ IsPrefix2(w.ra, a) /\ IsPrefix2(w.rb, b)
                /\ \A i \in DOMAIN a : a[i][1] \in B => a[i] \in Elems(w.ra)
                /\ \A i \in DOMAIN b : b[i][1] \in A => b[i] \in Elems(w.rb)
                /\ (A # {} /\ B # {}) => (w.ra = a \/ w.rb = b)
(* asking for fewer elements touches less, and what is delivered is a prefix    *)
Lazy == \A or \in BOOLEAN :
          LET w == Walk(a, b, d, or)  f == Walk(a, b, All, or) IN
          /\ IsPrefix2(w.ra, f.ra) /\ IsPrefix2(w.rb, f.rb)
          /\ w.o = Take(f.o, d)
          /\ w.pa <= Len(a) + 1 /\ w.pb <= Len(b) + 1
=============================================================================
