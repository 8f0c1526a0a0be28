------------------------------ MODULE MC_Alias ------------------------------
(* Why object disjointness is the right thing to judge: if a value-returning  *)
(* operation returns an object graph disjoint from its operand's, then no     *)
(* history of later mutations of one side (writes to reachable objects,       *)
(* links between them, links to fresh objects) is visible from the other; and *)
(* if it is not disjoint, one write is.                                       *)
EXTENDS Alias, TLC
CONSTANTS N, Share      \* objects; may the operation return a sharing result?
Obj == 1..N
VARIABLES refs, vals, side, view
vars == <<refs, vals, side, view>>
(* object 1 is the operand's root, object 2 the result's *)
Init == /\ refs \in [Obj -> SUBSET (2..N)]
        /\ \A o \in Obj : refs[o] \subseteq {p \in Obj : p > o /\ p > 2}
        /\ (Share \/ Reach(refs, 1) \cap Reach(refs, 2) = {})
        /\ vals = [o \in Obj |-> 0]
        /\ side \in {1, 2}
        /\ view = View(refs, vals, 3 - side)
Mine == Reach(refs, side)
Fresh == {o \in Obj \ (Reach(refs, 1) \cup Reach(refs, 2)) : refs[o] = {}}
Write == \E o \in Mine : \E v \in 1..2 :
           vals' = [vals EXCEPT ![o] = v] /\ UNCHANGED <<refs, side, view>>
Link == \E o \in Mine : \E p \in (Mine \cup Fresh) \ {1, 2} :
           refs' = [refs EXCEPT ![o] = @ \cup {p}] /\ UNCHANGED <<vals, side, view>>
Unlink == \E o \in Mine : \E p \in refs[o] :
           refs' = [refs EXCEPT ![o] = @ \ {p}] /\ UNCHANGED <<vals, side, view>>
Next == Write \/ Link \/ Unlink
Spec == Init /\ [][Next]_vars
(* with Share = FALSE *)
Isolated == View(refs, vals, 3 - side) = view
StaysDisjoint == Reach(refs, 1) \cap Reach(refs, 2) = {}
(* with Share = TRUE: sharing is always one write away from being visible *)
SharingIsVisible == (Reach(refs, 1) \cap Reach(refs, 2) # {}) =>
  \E o \in Mine : LET w == [vals EXCEPT ![o] = 3] IN View(refs, w, 3 - side) # View(refs, vals, 3 - side)
=============================================================================
