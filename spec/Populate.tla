------------------------------ MODULE Populate ------------------------------
(* Populate loops: z << source.                                                *)
(*                                                                             *)
(* A loop offers, in order, the coordinates its source presents (CoIter), each *)
(* with the source's payload and a reference into z. `ends` gives, for every    *)
(* offered coordinate, the node the reference holds when the body is done.      *)
EXTENDS CoIter, FTMachine

RECURSIVE StripI(_)
StripI(n) == [k |-> n.k, c |-> n.c, p |-> [i \in DOMAIN n.p |-> StripI(n.p[i])], v |-> n.v, g |-> n.g]

(* what a reference shows: the stored element, else the default of the rank     *)
Shown(z, h, d, c) == IF Has(z, c) THEN At(z, c) ELSE Default(h - 1, d)

(* declarative: the state after the loop                                       *)
Override(z, d, offs) == (* offs: sequence of [c, z] *)
  FoldLeft(LAMBDA acc, o : IF IsEmptyTree(o.z, d) THEN DropAt(acc, o.c) ELSE PutElem(acc, o.c, o.z, "i"), z, offs)

(* the same, clause by clause, on what was observed *)
OffCoords(y) == {y[i].c : i \in DOMAIN y}
Untouched(z0, z1, y) ==
  \A i \in DOMAIN z0.c : z0.c[i] \notin OffCoords(y) => (Has(z1, z0.c[i]) /\ At(z1, z0.c[i]) = z0.p[i])
NoLeftovers(z1, d, y) == \A i \in DOMAIN y : IsEmptyTree(y[i].end, d) => ~Has(z1, y[i].c)
Kept(z1, d, y) ==
  \A i \in DOMAIN y : ~IsEmptyTree(y[i].end, d) =>
     (Has(z1, y[i].c) /\ Content(At(z1, y[i].c), d) = Content(y[i].end, d))
NoStrays(z0, z1, y) ==
  \A i \in DOMAIN z1.c : z1.c[i] \in OffCoords(y) \/ Has(z0, z1.c[i])
=============================================================================
