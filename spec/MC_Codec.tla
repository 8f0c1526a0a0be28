------------------------------ MODULE MC_Codec ------------------------------
(* Every small tree under every descriptor: encoded, decoded from the layout,   *)
(* and scanned with the handle interface, each fiber stepping on its own.       *)
EXTENDS Codec
CONSTANTS NC, Depth, Extra      \* coordinates 0..NC-1, imposed shapes up to NC + Extra
SortedSeq(S) == SetToSortSeq(S, <)
RECURSIVE Trees(_)
Trees(D) ==
  LET sub == IF D = 1 THEN {Box(Val(v)) : v \in {0, 1}} ELSE Trees(D - 1) IN
  UNION {{MkFiber([j \in 1..Cardinality(S) |-> <<SortedSeq(S)[j]>>], q, IF S = {} THEN "" ELSE "i") : q \in [1..Cardinality(S) -> sub]}
         : S \in SUBSET (0..(NC - 1))}
VARIABLES t, desc, dims
vars == <<t, desc, dims>>
Init == t \in Trees(Depth) /\ desc = <<>> /\ dims = <<>>
Next == /\ desc = <<>>
        /\ desc' \in [1..Depth -> {"U", "C", "B"}]
        /\ dims' \in {[d \in 1..Depth |-> NC + x] : x \in 0..Extra}
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Out == Encode(t, desc, dims)
Ls == Levels(desc, dims, Out)
Sound == desc # <<>> => (Ls # Bad /\ Proper(Ls, dims))
Lossless == desc # <<>> => Decoded(Ls, Out) = Content(t, Zero)
(* all words of the arrays are accounted for by the fibers of each rank *)
RECURSIVE SumSize(_, _)
SumSize(d, j) == IF j = 0 THEN 0 ELSE Size(desc, dims, Ls, d, j) - (IF d < Depth THEN Payloads(desc, Ls, d, j) ELSE 0) + SumSize(d, j - 1)
Words == desc # <<>> => \A d \in 1..Depth : desc[d] # "B" => SumSize(d, Len(Ls[d])) = Len(Out.ranks[d].c) + Len(Out.ranks[d].p) + Len(Out.ranks[d].v)
(* an array that is cut short, or a mask that does not agree, is noticed *)
Cut == desc # <<>> => \A d \in 1..Depth :
  /\ Out.ranks[d].c # <<>> => Levels(desc, dims, [Out EXCEPT !.ranks[d].c = Front(@)]) = Bad
  /\ Out.ranks[d].v # <<>> => Levels(desc, dims, [Out EXCEPT !.ranks[d].v = Front(@)]) = Bad
  /\ Out.ranks[d].p # <<>> => Levels(desc, dims, [Out EXCEPT !.ranks[d].p = Front(@)]) = Bad
(* the sub-fibers a rank refers to are those of the next rank, in order *)
Children == desc # <<>> => \A d \in 1..(Depth - 1) : FlattenSeq([j \in DOMAIN Ls[d] |-> [i \in DOMAIN Ls[d][j].cs |-> Ls[d][j].off + i]]) = [i \in 1..Len(Ls[d + 1]) |-> i]
=============================================================================
