----------------------------- MODULE MC_Kernel -----------------------------
(* Design model of a kernel written in the library's idiom: an explicit loop    *)
(* nest with a populated output tree, for every loop order, tiling and           *)
(* intersection style, over all operands of a small einsum.  The output a body   *)
(* leaves at its default is removed again on the way out.                        *)
EXTENDS Kernel
CONSTANTS Form, Sizes, Styles
(* the einsums: operand variables and output variables *)
Forms == [dot |-> [o |-> <<<<"K">>, <<"K">>>>, z |-> <<>>, sh |-> 3],
          elem |-> [o |-> <<<<"M">>, <<"M">>>>, z |-> <<"M">>, sh |-> 3],
          matvec |-> [o |-> <<<<"M", "K">>, <<"K">>>>, z |-> <<"M">>, sh |-> 2],
          reduce |-> [o |-> <<<<"M", "K">>>>, z |-> <<"K">>, sh |-> 2],
          outer |-> [o |-> <<<<"M">>, <<"N">>>>, z |-> <<"M", "N">>, sh |-> 2],
          tri |-> [o |-> <<<<"K">>, <<"K">>, <<"K">>>>, z |-> <<>>, sh |-> 2],
          matmul |-> [o |-> <<<<"M", "K">>, <<"K", "N">>>>, z |-> <<"M", "N">>, sh |-> 2]]
F == Forms[Form]
Vals == IF Form \in {"matmul"} THEN {0, 1} ELSE {0, 1, -1}
Range0(s) == 0..(s - 1)
PtsOf(vs) == IF Len(vs) = 1 THEN {<<i>> : i \in Range0(F.sh)} ELSE {<<i, j>> : i \in Range0(F.sh), j \in Range0(F.sh)}
Operands(vs) == {[v |-> vs, s |-> {<<q, f[q]>> : q \in {q \in PtsOf(vs) : f[q] # 0}}] : f \in [PtsOf(vs) -> Vals]}
Vars == UNION {{F.o[i][j] : j \in DOMAIN F.o[i]} : i \in DOMAIN F.o}
(* the ranks of a tiling, and their orders in which tiles come before their insides *)
Tilings == [Vars -> Sizes]
RanksOf(t) == UNION {IF t[x] = 0 THEN {[v |-> x, s |-> 0, lo |-> FALSE]}
                     ELSE {[v |-> x, s |-> t[x], lo |-> FALSE], [v |-> x, s |-> t[x], lo |-> TRUE]} : x \in Vars}
Orders(t) == {q \in SetToSeqs(RanksOf(t)) :
                \A i, j \in DOMAIN q : q[i].v = q[j].v /\ ~q[i].lo /\ q[j].lo => i < j}
AllLead(order) == [i \in DOMAIN order |-> DOMAIN F.o]
OneLead(order) == [i \in DOMAIN order |-> {CHOOSE k \in {k \in DOMAIN F.o : order[i].v \in {F.o[k][j] : j \in DOMAIN F.o[k]}} :
                                              \A m \in DOMAIN F.o : order[i].v \in {F.o[m][j] : j \in DOMAIN F.o[m]} => k <= m}]

VARIABLES ops, order, leads, pre, todo, z, ncount, pc
vars == <<ops, order, leads, pre, todo, z, ncount, pc>>
(* todo: one sequence of coordinates still to visit per open loop *)
IsOut(i) == \E k \in DOMAIN F.z : F.z[k] = order[i].v
ZPoint(p) == LET ix == SelectSeq([i \in DOMAIN p |-> i], IsOut) IN [j \in DOMAIN ix |-> <<p[ix[j]]>>]
ZRanks == Len(SelectSeq([i \in DOMAIN order |-> i], IsOut))

RECURSIVE SetAt(_, _, _), DropAt(_, _)
SetAt(n, pt, x) == IF pt = <<>> THEN x
                   ELSE PutElem(n, pt[1], SetAt(IF Has(n, pt[1]) THEN At(n, pt[1]) ELSE EmptyFiber, Tail(pt), x), "i")
DropAt(n, pt) == IF Len(pt) = 1 THEN (IF Has(n, pt[1]) THEN DropIdx(n, {Pos(n, pt[1])}) ELSE n)
                 ELSE [n EXCEPT !.p[Pos(n, pt[1])] = DropAt(@, Tail(pt))]

Init == /\ ops \in (IF Len(F.o) = 1 THEN {<<a>> : a \in Operands(F.o[1])}
                    ELSE IF Len(F.o) = 2 THEN {<<a, b>> : a \in Operands(F.o[1]), b \in Operands(F.o[2])}
                    ELSE {<<a, b, c>> : a \in Operands(F.o[1]), b \in Operands(F.o[2]), c \in Operands(F.o[3])})
        /\ \E t \in Tilings : order \in Orders(t)
        /\ \E s \in Styles : leads = IF s = "and" THEN AllLead(order) ELSE OneLead(order)
        /\ pre = <<>> /\ ncount = [add |-> 0, upd |-> 0, mul |-> 0]
        /\ z = IF F.z = <<>> THEN Box(Val(0)) ELSE EmptyFiber
        /\ todo = <<>> /\ pc = "open"
(* start the loop at the next rank *)
Open == /\ pc = "open"
        /\ todo' = Append(todo, Ordered(NextCoords(order, ops, pre, leads[Len(pre) + 1])))
        /\ pc' = "step" /\ UNCHANGED <<ops, order, leads, pre, z, ncount>>
Cur == todo[Len(todo)]
(* one body: populate the output if it has this rank *)
Step == /\ pc = "step" /\ Cur # <<>>
        /\ LET p == Append(pre, Cur[1]) IN
           /\ pre' = p
           /\ todo' = [todo EXCEPT ![Len(todo)] = Tail(Cur)]
           /\ z' = IF IsOut(Len(p)) /\ ReadPoint(z, ZPoint(p)).k = "absent"
                   THEN SetAt(z, ZPoint(p), IF Len(ZPoint(p)) = ZRanks THEN Box(Val(0)) ELSE EmptyFiber) ELSE z
           /\ pc' = IF Len(p) = Len(order) THEN "reduce" ELSE "open"
        /\ UNCHANGED <<ops, order, leads, ncount>>
Reduce == /\ pc = "reduce"
          /\ LET old == ReadPoint(z, ZPoint(pre)).v[1]
                 new == Box(Val(old + Product(order, ops, pre))) IN
             /\ z' = IF F.z = <<>> THEN new ELSE SetAt(z, ZPoint(pre), new)
             /\ ncount' = [add |-> ncount.add + (IF old # 0 THEN 1 ELSE 0), upd |-> ncount.upd + 1, mul |-> ncount.mul + Len(ops) - 1]
          /\ pc' = "leave" /\ UNCHANGED <<ops, order, leads, pre, todo>>
(* after a body: what was left at the default goes *)
Leave == /\ pc = "leave"
         /\ z' = IF IsOut(Len(pre)) /\ IsEmptyTree(ReadPoint(z, ZPoint(pre)), Val(0)) THEN DropAt(z, ZPoint(pre)) ELSE z
         /\ pre' = SubSeq(pre, 1, Len(pre) - 1) /\ pc' = "step" /\ UNCHANGED <<ops, order, leads, todo, ncount>>
Close == /\ pc = "step" /\ Cur = <<>>
         /\ todo' = SubSeq(todo, 1, Len(todo) - 1)
         /\ pc' = IF Len(todo) = 1 THEN "done" ELSE "leave"
         /\ UNCHANGED <<ops, order, leads, pre, z, ncount>>
Next == Open \/ Step \/ Reduce \/ Leave \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ZContent == IF F.z = <<>> THEN {<<<<>>, z.v[1]>> : i \in {i \in {1} : z.v[1] # 0}} ELSE Points(z)
(* value of variable x at an output point: its innermost rank *)
OutOrder == SelectSeq([i \in DOMAIN order |-> i], IsOut)
ValueOf(q, x) == q[CHOOSE j \in DOMAIN OutOrder : order[OutOrder[j]].v = x /\ \A m \in DOMAIN OutOrder : order[OutOrder[m]].v = x => m <= j]
InTile(q) == \A j \in DOMAIN OutOrder : RankCoord(order[OutOrder[j]], ValueOf(q, order[OutOrder[j]].v)) = q[j]
Dense == pc = "done" =>
  /\ {<<[k \in DOMAIN F.z |-> ValueOf(x[1], F.z[k])], x[2]>> : x \in ZContent} = Result(ops, F.z)
  /\ \A x \in ZContent : InTile(x[1])
(* nothing is left at its default *)
Clean == pc = "done" /\ F.z # <<>> => Canonical(z, Val(0)) 
Shape == F.z # <<>> => SortedTree(z) /\ PairedTree(z)
(* the counts are those of the declarative definition *)
Counted == pc = "done" =>
  LET o == Ops(order, ops, F.z, leads) IN ncount = [add |-> o.add, upd |-> o.upd, mul |-> o.mul]
Terminates == <>(pc = "done")
=============================================================================
