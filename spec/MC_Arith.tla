------------------------------ MODULE MC_Arith ------------------------------
(* Design model of the in-place fiber operators as they are executed, element   *)
(* by element on boxes: f += g inserts, adds and retires along g and then adds  *)
(* the default of g to what only f has; f *= g first computes the products,     *)
(* then empties what is outside the intersection, then assigns; += scalar walks *)
(* the shape, *= scalar the stored elements. g may be f itself. A fiber maps    *)
(* coordinates to box identifiers; box holds the values.                        *)
EXTENDS Arith, TLC
CONSTANTS NC, MaxV, Defaults
Vals == -1..MaxV
Scalars == -2..2
C == 0..(NC - 1)
Q(n) == <<n, 1>>
Ops == {"+f", "*f", "+s", "*s"}
VARIABLES op, d, f, g, box, old, todo, prod, pc, seen
vars == <<op, d, f, g, box, old, todo, prod, pc, seen>>
(* boxes 10+c belong to f, 20+c to g, 30+c are created on the way *)
Maps == UNION {[S -> Vals] : S \in SUBSET C}
ContentOf(h, b) == Proper({<<<<<<c>>>>, b[h[c]]>> : c \in DOMAIN h}, d)
(* <<old.f, old.g, s>>: what was there before *)
Init ==
  \E x \in Maps, y \in Maps, o \in Ops, e \in Defaults, same \in BOOLEAN, s \in Scalars :
    /\ op = o /\ d = Q(e)
    /\ (same \/ o \in {"+s", "*s"}) => y = <<>>
    /\ ~(same /\ o \in {"+s", "*s"})
    /\ (o \in {"+f", "*f"}) => s = 0
    /\ f = [c \in DOMAIN x |-> 10 + c]
    /\ g = IF same THEN f ELSE [c \in DOMAIN y |-> 20 + c]
    /\ box = [i \in {10 + c : c \in DOMAIN x} \cup {20 + c : c \in DOMAIN y} |->
                IF i < 20 THEN Q(x[i - 10]) ELSE Q(y[i - 20])]
    /\ old = [f |-> f, g |-> g, b |-> box, s |-> Q(s), same |-> same]
    /\ todo = IF o = "+f" THEN {c \in DOMAIN g : box[g[c]] # Q(e)}
              ELSE IF o = "+s" THEN C ELSE IF o = "*s" THEN {c \in DOMAIN f : box[f[c]] # Q(e)} ELSE DOMAIN f
    /\ prod = IF o = "*f" THEN [c \in {k \in DOMAIN f \cap DOMAIN g : box[f[k]] # Q(e) /\ box[g[k]] # Q(e)} |->
                                  TimesQ(box[f[c]], box[g[c]])]
              ELSE <<>>
    /\ pc = "go" /\ seen = {}
NextC == CHOOSE c \in todo : \A k \in todo : c <= k
Put(i, v) == [k \in DOMAIN box \cup {i} |-> IF k = i THEN v ELSE box[k]]
AddF == /\ op = "+f" /\ pc = "go" /\ todo # {}
        /\ LET c == NextC
               cur == IF c \in DOMAIN f THEN box[f[c]] ELSE d
               v == PlusQ(cur, box[g[c]]) IN
           /\ todo' = todo \ {c} /\ seen' = seen \cup {c}
           /\ IF c \in DOMAIN f
              THEN /\ box' = Put(f[c], v)
                   /\ f' = IF v = d THEN [k \in DOMAIN f \ {c} |-> f[k]] ELSE f
              ELSE /\ box' = Put(30 + c, v)
                   /\ f' = IF v = d THEN f ELSE [k \in DOMAIN f \cup {c} |-> IF k = c THEN 30 + c ELSE f[k]]
        /\ UNCHANGED <<op, d, g, old, prod, pc>>
AddRest == /\ op = "+f" /\ pc = "go" /\ todo = {}
           /\ box' = [i \in DOMAIN box |-> IF \E c \in DOMAIN f \ seen : f[c] = i /\ box[i] # d THEN PlusQ(box[i], d) ELSE box[i]]
           /\ pc' = "done" /\ UNCHANGED <<op, d, f, g, old, todo, prod, seen>>
Clear == /\ op = "*f" /\ pc = "go" /\ todo # {}
         /\ LET c == NextC IN
            /\ todo' = todo \ {c}
            /\ box' = IF c \in DOMAIN prod THEN box ELSE Put(f[c], d)
         /\ UNCHANGED <<op, d, f, g, old, prod, pc, seen>>
Assign == /\ op = "*f" /\ pc = "go" /\ todo = {}
          /\ LET left == DOMAIN prod \ seen IN
             IF left = {} THEN pc' = "done" /\ UNCHANGED <<box, seen>>
             ELSE LET c == CHOOSE c \in left : TRUE IN
                  box' = Put(f[c], prod[c]) /\ seen' = seen \cup {c} /\ UNCHANGED pc
          /\ UNCHANGED <<op, d, f, g, old, todo, prod>>
Scalar == /\ op \in {"+s", "*s"} /\ pc = "go" /\ todo # {}
          /\ LET c == NextC
                 cur == IF c \in DOMAIN f THEN box[f[c]] ELSE d
                 v == IF op = "+s" THEN PlusQ(cur, old.s) ELSE TimesQ(cur, old.s)
                 i == IF c \in DOMAIN f THEN f[c] ELSE 30 + c IN
             /\ box' = Put(i, v)
             /\ f' = [k \in DOMAIN f \cup {c} |-> IF k = c THEN i ELSE f[k]]
             /\ todo' = todo \ {c}
          /\ UNCHANGED <<op, d, g, old, prod, pc, seen>>
ScalarEnd == op \in {"+s", "*s"} /\ pc = "go" /\ todo = {} /\ pc' = "done" /\ UNCHANGED <<op, d, f, g, box, old, todo, prod, seen>>
Next == AddF \/ AddRest \/ Clear \/ Assign \/ Scalar \/ ScalarEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

A0 == ContentOf(old.f, old.b)
B0 == ContentOf(old.g, old.b)
Agrees == pc = "done" =>
  ContentOf(f, box) = (CASE op = "+f" -> AddMaps(A0, B0, d) [] op = "*f" -> MulMaps(A0, B0, d)
                         [] op = "+s" -> AddScalar(A0, old.s, <<NC>>, d) [] op = "*s" -> ScaleMap(A0, old.s, d))
(* a coordinate that stays keeps its box, and no box of g is written unless g is f *)
BoxKept == \A c \in DOMAIN f \cap DOMAIN old.f : f[c] = old.f[c]
OtherUntouched == ~old.same => \A c \in DOMAIN old.g : box[old.g[c]] = old.b[old.g[c]]
Terminates == <>(pc = "done")
(* laws of the value arithmetic *)
Small == {NormS(<<n, m>>) : n \in -4..4, m \in {1, 2, 3}}
ASSUME \A a \in Small, b \in Small :
  /\ PlusQ(a, b) = PlusQ(b, a) /\ TimesQ(a, b) = TimesQ(b, a) /\ MinusQ(PlusQ(a, b), b) = a
  /\ b # Q(0) => TimesQ(OverQ(a, b), b) = a
  /\ b # Q(0) => LET r == MinusQ(OverQ(a, b), FloorQ(OverQ(a, b))) IN ~LtQ(r, Q(0)) /\ LtQ(r, Q(1))
  /\ (IF LtQ(a, b) THEN 1 ELSE 0) + (IF LtQ(b, a) THEN 1 ELSE 0) + (IF EqQ(a, b) THEN 1 ELSE 0) = 1
=============================================================================
