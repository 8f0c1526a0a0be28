---------------------------- MODULE MC_Footprint ----------------------------
(* How the footprints relate, on every small tree and every format.            *)
EXTENDS Footprint
CONSTANTS NC, Depth
VARIABLES t, f
Coords == [i \in 1..NC |-> <<i - 1>>]
SortedSeq(S) == SetToSortSeq(S, <)
RECURSIVE Trees(_)
Trees(D) ==
  LET sub == IF D = 1 THEN {Box(Val(v)) : v \in {0, 1}} ELSE Trees(D - 1) IN
  UNION {{MkFiber([j \in 1..Cardinality(S) |-> Coords[SortedSeq(S)[j]]], q, IF S = {} THEN "" ELSE "i") :
            q \in [1..Cardinality(S) -> sub]} : S \in SUBSET (1..NC)}
Init == t \in Trees(Depth) /\ f \in [1..Depth -> {"C", "U"}]
Spec == Init /\ [][UNCHANGED <<t, f>>]_<<t, f>>
(* widths that keep every kind of bit apart *)
sp == [d \in 1..Depth |-> [format |-> f[d], fhbits |-> 7 * d, cbits |-> 100 * d, pbits |-> 1000 * d]]
sh == [d \in 1..Depth |-> NC]
d0 == Val(0)
Sub(x) == SubTreeBits(x, d0, sp, sh, <<>>)
All == TensorBits(t, sp, sh, [hbits |-> 3])
(* without empty sub-fibers and with compressed upper ranks the sub-tree of the  *)
(* root is all there is; never less is reached when an upper rank is uncompressed *)
Adds == (\A d \in 1..(Depth - 1) : f[d] = "C") => /\ Sub(Prune(t, d0)) + 3 = TensorBits(Prune(t, d0), sp, sh, [hbits |-> 3])
                                                  /\ Sub(t) + 3 <= All
Dense == (\A d \in 1..(Depth - 1) : f[d] = "U") => Sub(t) + 3 >= All
AllU == (\A d \in 1..Depth : f[d] = "U") => Sub(t) = Sub(EmptyFiber)
(* below a point: a sub-tree is its fiber plus the sub-trees of its children *)
Kids(pt) == IF Format(sp[1]) = "U" THEN {Coords[i] : i \in 1..NC} ELSE NonEmptyCoordSet(t, d0)
Recursive == Depth > 1 => Sub(t) = PointFiberBits(t, sp, sh, <<>>) + SumSeq([i \in 1..NC |-> IF Coords[i] \in Kids(<<>>) THEN SubTreeBits(t, d0, sp, sh, <<Coords[i]>>) ELSE 0])
=============================================================================
