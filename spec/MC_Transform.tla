---------------------------- MODULE MC_Transform ----------------------------
(* Design model: the constructive tree transforms move every point to its     *)
(* image, for every 2-rank tree over NC x NC (absent, explicit default, empty *)
(* sub-fibers and values), and transforms are inverted as documented.         *)
EXTENDS Transform, TLC
CONSTANTS NC
VARIABLES t, u, done
vars == <<t, u, done>>
D0 == <<0, 1>>
Cs == 0..(NC - 1)
FiberOf(m) == (* m : Cs -> payload or <<>> *)
  LET s == SetToSortSeq({c \in Cs : m[c] # <<>>}, LAMBDA x, y : x < y) IN
  MkFiber([i \in DOMAIN s |-> <<s[i]>>], [i \in DOMAIN s |-> m[s[i]]], "i")
Leaves == {FiberOf(m) : m \in [Cs -> {<<>>, Box(D0), Box(Val(1)), Box(Val(3))}]}
Trees == {FiberOf(m) : m \in [Cs -> {<<>>} \cup Leaves]}
Descr(o) == [o |-> o, depth |-> 0, levels |-> 1, style |-> "tuple", perm |-> <<>>, fn |-> "sum"]
Init == t \in Trees /\ u = t /\ done = "no"
Next == /\ done = "no"
        /\ \/ u' = FlattenTop(t) /\ done' = "flatten"
           \/ u' = SwapTop(t) /\ done' = "swap"
           \/ u' = UnflattenTop(FlattenTop(t)) /\ done' = "round"
           \/ u' = SwapTop(SwapTop(t)) /\ done' = "twice"
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
C(x) == Content(x, D0)
ShapesOf == <<<<NC>>, <<NC>>>>
MovesToImage ==
  /\ done = "flatten" => C(u) = Moved(C(t), Descr("flatten"), ShapesOf, D0)
  /\ done = "swap" => /\ C(u) = Moved(C(t), Descr("swap"), ShapesOf, D0)
                      /\ C(u) = Moved(C(t), [Descr("swizzle") EXCEPT !.perm = <<1, 0>>], ShapesOf, D0)
  /\ done \in {"round", "twice"} => C(u) = C(t)
StaysWellFormed == WellFormed(u)
(* linearisation is injective on points inside the shape, and ordered *)
LinearInjective ==
  \A p, q \in {x[1] : x \in C(t)} : p # q =>
    LET a == [Descr("flatten") EXCEPT !.style = "linear"] IN
    /\ Image(p, a, ShapesOf) # Image(q, a, ShapesOf)
    /\ PtLT(p, q) <=> LexLT(Image(p, a, ShapesOf)[1], Image(q, a, ShapesOf)[1])
(* merging keeps the total, whatever collides *)
Total(c) == FoldSet(LAMBDA x, acc : acc + x[2][1], 0, c)
MergeKeepsTotal ==
  \A s \in {"absolute", "relative", "tuple"} :
    Total(Moved(C(t), [Descr("merge") EXCEPT !.style = s], ShapesOf, D0)) = Total(C(t))
=============================================================================
