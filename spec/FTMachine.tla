------------------------------ MODULE FTMachine ------------------------------
(* The mutable fibertree as a state machine: the state after every public      *)
(* mutating operation.                                                         *)
(*                                                                             *)
(* A state is a tree n of D ranks (leaf default d). An operation `op` is a     *)
(* record with op.o its name and op.at the coordinates of the fiber it acts    *)
(* on; h is the number of ranks at and below that fiber. Step(n, D, d, op)     *)
(* gives the state after the operation, Violates(n, D, d, op) tells whether    *)
(* the operation would break the coordinate order and so must be rejected.     *)
EXTENDS FT

(* ---- values ---- *)
AddV(a, b) == <<a[1] + b[1], 1>>
SubV(a, b) == <<a[1] - b[1], 1>>
MulV(a, b) == <<a[1] * b[1], 1>>
(* w.k: what is written through a reference; `old` the current value, `av` the *)
(* value delivered by the source of a populate                                 *)
WriteV(old, w, av) ==
  CASE w.k = "none" -> old
    [] w.k = "set"  -> w.v
    [] w.k = "add"  -> AddV(old, w.v)
    [] w.k = "sub"  -> SubV(old, w.v)
    [] w.k = "mul"  -> MulV(old, w.v)
    [] w.k = "copy" -> av
    [] w.k = "acc"  -> AddV(old, av)
    [] w.k = "scale" -> MulV(old, av)

(* ---- trees ---- *)
RECURSIVE Strip(_)
Strip(n) == [k |-> n.k, c |-> n.c, p |-> [i \in DOMAIN n.p |-> Strip(n.p[i])], v |-> n.v, g |-> n.g]

Default(h, d) == IF h = 0 THEN Box(d) ELSE EmptyFiber

(* reading: the node at a point, the default of the rank if absent *)
RECURSIVE Read(_, _, _, _)
Read(n, h, d, pt) ==
  IF pt = <<>> THEN n
  ELSE IF Has(n, pt[1]) THEN Read(At(n, pt[1]), h - 1, d, Tail(pt))
  ELSE Default(h - Len(pt), d)
(* the tree with the path to pt created and x put there *)
RECURSIVE PutAt(_, _, _, _, _)
PutAt(n, h, d, pt, x) ==
  IF pt = <<>> THEN x
  ELSE LET old == IF Has(n, pt[1]) THEN At(n, pt[1]) ELSE Default(h - 1, d)
       IN PutElem(n, pt[1], PutAt(old, h - 1, d, Tail(pt), x), "i")
Upd(n, h, d, pt, F(_)) == PutAt(n, h, d, pt, F(Read(n, h, d, pt)))
RECURSIVE Present(_, _)
Present(n, pt) == pt = <<>> \/ (n.k = "F" /\ Has(n, pt[1]) /\ Present(At(n, pt[1]), Tail(pt)))

(* elements a (compressed) fiber presents to a loop *)
Elements(n, d) ==
  LET ix == NonEmptyIdx(n, d) IN [j \in DOMAIN ix |-> [c |-> n.c[ix[j]], p |-> n.p[ix[j]]]]
(* elements of a coordinate range, defaults standing in *)
DenseElements(n, h, d, lo, hi) ==
  [j \in 1..Max2(0, hi - lo) |->
     LET c == <<lo + j - 1>> IN [c |-> c, p |-> IF Has(n, c) THEN At(n, c) ELSE Default(h - 1, d)]]

DropAt(n, c) == IF Has(n, c) THEN DropIdx(n, {Pos(n, c)}) ELSE n

(* ---- fiber assignment: the destination takes the content of x ---- *)
Assigned(x, d) == Prune(x, d)

(* ---- populate ---- *)
Act(acts, i) == acts[((i - 1) % Len(acts)) + 1]
(* Both give the resulting tree z and the sequence y of what the loops show:   *)
(* <<prefix of the loop, coordinate, the source's payload, the current value   *)
(* in the destination>>                                                        *)
RECURSIVE PopulateR(_, _, _, _, _, _), BodyR(_, _, _, _, _, _)
ZY(z, y) == [z |-> z, y |-> y]
BodyR(z, a, h, d, act, pre) ==
  CASE act.k = "skip"   -> ZY(z, <<>>)
    [] act.k = "write"  -> ZY(Box(WriteV(z.v, act.w, a.v)), <<>>)
    [] act.k = "nest"   -> PopulateR(z, h, d, Elements(a, d), act.sub, pre)
    [] act.k = "ref"    -> ZY(Upd(z, h, d, act.pt, LAMBDA x : IF x.k = "B" THEN Box(WriteV(x.v, act.w, x.v)) ELSE x), <<>>)
    [] act.k = "assign" -> ZY(Assigned(a, d), <<>>)
    [] act.k = "clear"  -> ZY(EmptyFiber, <<>>)
PopulateR(z, h, d, pres, acts, pre) ==
  FoldLeft(LAMBDA acc, i :
             LET c == pres[i].c
                 cur == IF Has(acc.z, c) THEN At(acc.z, c) ELSE Default(h - 1, d)
                 new == BodyR(cur, pres[i].p, h - 1, d, Act(acts, i), Append(pre, c))
             IN ZY(IF IsEmptyTree(new.z, d) THEN DropAt(acc.z, c) ELSE PutElem(acc.z, c, new.z, "i"),
                   acc.y \o <<[pre |-> pre, c |-> c, a |-> pres[i].p, z |-> cur]>> \o new.y),
           ZY(z, <<>>), [i \in DOMAIN pres |-> i])
Populate(z, h, d, pres, acts) == PopulateR(z, h, d, pres, acts, <<>>).z
Body(z, a, h, d, act) == BodyR(z, a, h, d, act, <<>>).z

(* ---- dense iteration with references ---- *)
ShapeRef(n, h, d, cs, acts) ==
  FoldLeft(LAMBDA acc, i :
             LET cur == IF Has(acc, cs[i]) THEN At(acc, cs[i]) ELSE Default(h - 1, d)
                 act == Act(acts, i)
                 new == IF h = 1 THEN Box(WriteV(cur.v, act.w, cur.v))
                        ELSE IF act.k = "ref" THEN Body(cur, cur, h - 1, d, act) ELSE cur
             IN PutElem(acc, cs[i], new, "i"),
           n, [i \in DOMAIN cs |-> i])
Steps(lo, hi, st) ==
  IF hi <= lo THEN <<>> ELSE [j \in 1..((hi - lo + st - 1) \div st) |-> <<lo + (j - 1) * st>>]

(* ---- elementwise arithmetic in place (content of the result is C11's) ---- *)

(* ---- coordinate updates ---- *)
CoordFn(fn, i, c) ==
  CASE fn.k = "shift" -> [c EXCEPT ![1] = @ + fn.n]
    [] fn.k = "rev"   -> [c EXCEPT ![1] = fn.n - @]
    [] fn.k = "scale" -> [c EXCEPT ![1] = @ * fn.n]
    [] fn.k = "half"  -> [c EXCEPT ![1] = @ \div 2]
    [] fn.k = "const" -> <<fn.n>>
    [] fn.k = "xor"   -> [c EXCEPT ![1] = IF @ % 2 = 0 THEN @ + 1 ELSE @ - 1]
    [] fn.k = "pos"   -> <<i - 1 + fn.n>>
NewCoords(n, fn) == [i \in DOMAIN n.c |-> CoordFn(fn, i, n.c[i])]
Dups(cs) == \E i, j \in DOMAIN cs : i < j /\ cs[i] = cs[j]
Resort(n, cs) ==
  LET ix == SetToSortSeq(DOMAIN cs, LAMBDA i, j : LexLT(cs[i], cs[j])) IN
  [n EXCEPT !.c = [j \in DOMAIN ix |-> cs[ix[j]]], !.p = [j \in DOMAIN ix |-> n.p[ix[j]]]]
RECURSIVE UpdCoords(_, _, _), CoordClash(_, _, _)
UpdCoords(n, dep, fn) ==
  IF dep = 0 THEN Resort(n, NewCoords(n, fn))
  ELSE [n EXCEPT !.p = [i \in DOMAIN n.p |-> UpdCoords(n.p[i], dep - 1, fn)]]
CoordClash(n, dep, fn) ==
  IF dep = 0 THEN Dups(NewCoords(n, fn)) ELSE \E i \in DOMAIN n.p : CoordClash(n.p[i], dep - 1, fn)

(* ---- payload updates (leaf rank): every non-empty payload ---- *)
RECURSIVE UpdPayloads(_, _, _, _)
UpdPayloads(n, dep, d, w) ==
  IF dep = 0
  THEN [n EXCEPT !.p = [i \in DOMAIN n.p |->
          IF IsEmptyTree(n.p[i], d) \/ n.p[i].k = "F" THEN n.p[i] ELSE Box(WriteV(n.p[i].v, w, n.p[i].v))]]
  ELSE [n EXCEPT !.p = [i \in DOMAIN n.p |-> UpdPayloads(n.p[i], dep - 1, d, w)]]

(* ---- operations that violate coordinate order ---- *)
Last0(s) == s[Len(s)]
SetPos(n, i) == IF i < 0 THEN i + Len(n.c) + 1 ELSE i + 1          (* 1-based *)
OutOfRange(n, i) == SetPos(n, i) < 1 \/ SetPos(n, i) > Len(n.c)
ViolatesAt(n, d, op) ==
  CASE op.o = "append" -> n.c # <<>> /\ ~LexLT(Last0(n.c), op.c)
    [] op.o = "extend" -> /\ ~IsEmptyTree(op.x, d)
                          /\ \/ (n.c # <<>> /\ op.x.c # <<>> /\ ~LexLT(Last0(n.c), op.x.c[1]))
                             \/ ~StrictlyAscending(op.x.c)
    [] op.o = "setitem" ->
         /\ op.c # <<>> /\ ~OutOfRange(n, op.i)
         /\ LET j == SetPos(n, op.i) IN
            \/ (j > 1 /\ ~LexLT(n.c[j - 1], op.c))
            \/ (j < Len(n.c) /\ ~LexLT(op.c, n.c[j + 1]))
    [] op.o = "updcoords" -> CoordClash(n, op.depth, op.fn)
    [] op.o = "insert" -> Has(n, op.c)
    [] OTHER -> FALSE
Target(n, op) == ReadPoint(n, op.at)
Violates(n, d, op) == ViolatesAt(Target(n, op), d, op)

(* ---- one step on the addressed fiber (h ranks) ---- *)
StepAt(n, h, d, op) ==
  IF ViolatesAt(n, d, op) THEN n
  ELSE
  CASE op.o = "ref" ->
         Upd(n, h, d, op.pt, LAMBDA x : IF x.k = "B" THEN Box(WriteV(x.v, op.w, x.v)) ELSE x)
    [] op.o \in {"get", "pos"} -> n
    [] op.o = "posref" -> Upd(n, h, d, <<op.c>>, LAMBDA x : x)
    [] op.o \in {"append", "insert"} -> PutElem(n, op.c, op.x, "i")
    [] op.o = "iol" -> IF Has(n, op.c) THEN n ELSE PutElem(n, op.c, op.x, "i")
    [] op.o = "extend" -> IF IsEmptyTree(op.x, d) THEN n
                          ELSE [n EXCEPT !.c = @ \o op.x.c, !.p = @ \o op.x.p, !.g = "i"]
    [] op.o = "setitem" ->
         IF OutOfRange(n, op.i) THEN n
         ELSE LET j == SetPos(n, op.i) IN
              [n EXCEPT !.c[j] = IF op.c = <<>> THEN @ ELSE op.c,
                        !.p[j] = IF op.x.k = "N" THEN @ ELSE op.x]
    [] op.o = "clear" -> EmptyFiber
    [] op.o = "assign" -> Assigned(op.x, d)
    [] op.o = "populate" -> Populate(n, h, d, Elements(op.x, d), op.acts)
    [] op.o = "shaperef" -> ShapeRef(n, h, d, Steps(op.lo, op.hi, op.st), op.acts)
    [] op.o = "updcoords" -> UpdCoords(n, op.depth, op.fn)
    [] op.o = "updpay" -> UpdPayloads(n, op.depth, d, op.w)

RECURSIVE Inside(_, _, _)
Inside(n, at, x) ==
  IF at = <<>> THEN x
  ELSE [n EXCEPT !.p[Pos(n, at[1])] = Inside(@, Tail(at), x)]
Step(n, D, d, op) == Inside(n, op.at, StepAt(Target(n, op), D - Len(op.at), d, op))

(* ---- the abstract map a tree stands for ---- *)
Under(n, pre, d) == {x \in Content(n, d) : SubSeq(x[1], 1, Len(pre)) = pre}
=============================================================================
