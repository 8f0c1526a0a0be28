------------------------------ MODULE MC_Attrs ------------------------------
(* Design model: attributes re-arranged by chains of transforms always        *)
(* describe the points moved by the same chains.                              *)
EXTENDS Attrs, TLC
CONSTANTS D, S, MaxOps
VARIABLES ids, ss, fs, pts, n, undo
vars == <<ids, ss, fs, pts, n, undo>>
Ids0 == SubSeq(<<<<"M">>, <<"K">>, <<"N">>, <<"P">>>>, 1, D)
Boxes == [1..D -> {<<x>> : x \in 1..S}]
RECURSIVE Box2(_)
Box2(s) == IF s = <<>> THEN {<<>>}
           ELSE {<<<<c>>>> \o p : c \in 0..(s[1][1] - 1), p \in Box2(Tail(s))}
NoUndo == [st |-> "no", d |-> 0, lv |-> 0, i |-> <<>>, s |-> <<>>]
Init == /\ ids = Ids0 /\ ss \in Boxes
        /\ fs \in [1..D -> {"C", "U"}]
        /\ pts = Box2(ss) /\ n = 0 /\ undo = NoUndo
A(o, k, lv, st, p) == [o |-> o, depth |-> k, levels |-> lv, style |-> st, perm |-> p, fn |-> "none"]
Perms == {p \in [1..Len(ids) -> 0..(Len(ids) - 1)] : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
AllInt(i, j) == \A x \in i..j : Len(ss[x]) = 1
Plain(i, j) == \A x \in i..j : ~IsListId(ids[x])
Do(a) == /\ ids' = IdsAfter(ids, a) /\ ss' = ShapeAfter(ss, a) /\ fs' = FormatsAfter(fs, a)
         /\ pts' = {Image(p, a, ss) : p \in pts}
         /\ n' = n + 1
         /\ undo' = IF a.o = "unflatten" /\ undo.st = "flat" /\ a.depth = undo.d /\ a.levels = undo.lv
                    THEN [undo EXCEPT !.st = "undone"]
                    ELSE IF /\ a.o = "flatten" /\ a.style = "tuple" /\ AllInt(a.depth + 1, a.depth + a.levels + 1)
                            /\ Plain(a.depth + 1, a.depth + a.levels + 1)
                         THEN [st |-> "flat", d |-> a.depth, lv |-> a.levels, i |-> ids, s |-> ss] ELSE NoUndo
Next == /\ n < MaxOps
        /\ \/ \E p \in Perms : Do(A("swizzle", 0, 0, "", p))
           \/ \E k \in 0..(Len(ids) - 2) : Do(A("swap", k, 0, "", <<>>))
           \/ \E k \in 0..(Len(ids) - 2) : \E lv \in 1..(Len(ids) - 1 - k) :
                \E st \in {"tuple", "linear", "absolute"} :
                  /\ st = "linear" => AllInt(k + 1, k + lv + 1)
                  /\ Do(A("flatten", k, lv, st, <<>>))
           \/ \E k \in 0..(Len(ids) - 1) : \E lv \in 1..2 :
                Len(ss[k + 1]) > lv /\ Len(Names(ids[k + 1])) = Len(ss[k + 1]) /\ Do(A("unflatten", k, lv, "tuple", <<>>))
Spec == Init /\ [][Next]_vars
Parallel == Len(ids) = Len(ss) /\ Len(fs) = Len(ss)
EveryPointInside == \A p \in pts : /\ Len(p) = Len(ss)
                                   /\ \A i \in DOMAIN p : InShape(p[i], ss[i])
Undone == undo.st = "undone" => /\ ids = undo.i /\ ss = undo.s
=============================================================================
