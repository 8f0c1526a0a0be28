----------------------------- MODULE MC_Convert -----------------------------
(* Design models of the conversions, exhaustive over small nests: building by   *)
(* squeezing and uncompressing by expanding are inverse; writing a tree as a     *)
(* stream of tokens and reading it back with a stack is the identity; random     *)
(* construction, one coin per coordinate, stays in the shape and fills it when   *)
(* every density is 1.                                                          *)
EXTENDS Convert, TLC
CONSTANTS NR, Mode      \* ranks; "nest" or "random"
Q(n) == <<n, 1>>
Shapes == [1..NR -> 1..2] \cup (IF NR = 1 THEN {<<3>>, <<4>>} ELSE IF NR = 2 THEN {<<3, 2>>, <<2, 3>>} ELSE {})
RECURSIVE Nests(_)
Nests(sh) == IF sh = <<>> THEN {NV(Q(0)), NV(Q(2))} ELSE {NL(s) : s \in [1..sh[1] -> Nests(Tail(sh))]}
Defaults == {Q(0), Q(2), Q(5)}

VARIABLES nest, sh, d, tree, toks, stack, pc, dens
vars == <<nest, sh, d, tree, toks, stack, pc, dens>>

(* ---- tokens of a tree: open, coordinate, value, close ---- *)
T(k, c, v) == [k |-> k, c |-> c, v |-> v]
RECURSIVE Dump(_)
Dump(n) == IF n.k # "F" THEN <<T("v", <<>>, n.v)>>
           ELSE <<T("(", <<>>, Q(0))>> \o FoldLeft(LAMBDA acc, i : acc \o <<T("c", n.c[i], Q(0))>> \o Dump(n.p[i]), <<>>, [i \in DOMAIN n.c |-> i])
                \o <<T(")", <<>>, Q(0))>>
(* ---- reading: a stack of open fibers ---- *)
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
AddTo(f, x) == [f EXCEPT !.p = Append(@, x)]
AddC(f, c) == [f EXCEPT !.c = Append(@, c), !.g = "i"]
Pushed(s, x) == IF s = <<>> THEN <<x>> ELSE SubSeq(s, 1, Len(s) - 1) \o <<AddTo(s[Len(s)], x)>>

Init == \E s \in Shapes, e \in Defaults :
          /\ sh = s /\ d = e /\ toks = <<>> /\ stack = <<>> /\ tree = EmptyFiber
          /\ IF Mode = "nest" THEN /\ nest \in Nests(s) /\ pc = "build" /\ dens = <<>>
             ELSE /\ nest = NV(Q(0)) /\ dens \in [1..NR -> {"some", "all"}] /\ d = Q(0) /\ pc = "flip"
Build == /\ pc = "build" /\ tree' = Squeeze(nest, d) /\ toks' = Dump(Squeeze(nest, d))
         /\ pc' = "read" /\ UNCHANGED <<nest, sh, d, stack, dens>>
Read == /\ pc = "read" /\ toks # <<>>
        /\ LET t == toks[1] IN
           stack' = CASE t.k = "(" -> Append(stack, EmptyFiber)
                      [] t.k = "c" -> SubSeq(stack, 1, Len(stack) - 1) \o <<AddC(Top, t.c)>>
                      [] t.k = "v" -> Pushed(stack, Box(t.v))
                      [] t.k = ")" -> Pushed(Rest, Top)
        /\ toks' = Tail(toks) /\ UNCHANGED <<nest, sh, d, tree, pc, dens>>
Done == pc = "read" /\ toks = <<>> /\ pc' = "done" /\ UNCHANGED <<nest, sh, d, tree, toks, stack, dens>>
(* ---- random construction: stack of (next coordinate, fiber) as <<c>> in v ---- *)
Open == /\ pc = "flip" /\ stack = <<>> /\ stack' = <<[c |-> 0, f |-> EmptyFiber]>>
        /\ pc' = "go" /\ UNCHANGED <<nest, sh, d, tree, toks, dens>>
RTop == stack[Len(stack)]
Bump(s) == [s EXCEPT ![Len(s)].c = @ + 1]
Skip == /\ pc = "go" /\ RTop.c < sh[Len(stack)] /\ dens[Len(stack)] = "some"
        /\ stack' = Bump(stack) /\ UNCHANGED <<nest, sh, d, tree, toks, pc, dens>>
Value == /\ pc = "go" /\ Len(stack) = NR /\ RTop.c < sh[NR]
         /\ \E v \in {1, 2} : stack' = Bump([stack EXCEPT ![NR].f = PutElem(RTop.f, <<RTop.c>>, Box(Q(v)), "i")])
         /\ UNCHANGED <<nest, sh, d, tree, toks, pc, dens>>
Enter == /\ pc = "go" /\ Len(stack) < NR /\ RTop.c < sh[Len(stack)]
         /\ stack' = Append(stack, [c |-> 0, f |-> EmptyFiber]) /\ UNCHANGED <<nest, sh, d, tree, toks, pc, dens>>
Leave == /\ pc = "go" /\ RTop.c = sh[Len(stack)]
         /\ IF Len(stack) = 1 THEN tree' = RTop.f /\ pc' = "done" /\ UNCHANGED stack
            ELSE LET s == Rest
                     up == s[Len(s)] IN
                 /\ stack' = Bump([s EXCEPT ![Len(s)].f = IF RTop.f.c = <<>> THEN @ ELSE PutElem(@, <<up.c>>, RTop.f, "i")])
                 /\ UNCHANGED <<tree, pc>>
         /\ UNCHANGED <<nest, sh, d, toks, dens>>
Next == Build \/ Read \/ Done \/ Open \/ Skip \/ Value \/ Enter \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Built == pc \in {"read", "done"} /\ Mode = "nest" =>
  /\ Rect(nest) /\ Dims(nest) = sh
  /\ Content(tree, d) = NestContent(nest, d)
  /\ WellFormed(tree) /\ LeavesAt(tree, NR) /\ Bare(tree, d)
  /\ Expand(Content(tree, d), sh, d, <<>>) = nest
Loaded == pc = "done" /\ Mode = "nest" => stack = <<tree>>
Randomized == pc = "done" /\ Mode = "random" =>
  /\ WellFormed(tree) /\ LeavesAt(tree, NR) /\ Bare(tree, d)
  /\ Cells(Content(tree, d)) \subseteq Points(sh)
  /\ (\A i \in 1..NR : dens[i] = "all") => Cells(Content(tree, d)) = Points(sh)
Terminates == <>(pc = "done")
=============================================================================
