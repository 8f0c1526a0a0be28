------------------------------ MODULE Convert ------------------------------
(* Conversions between representations. A nest of lists is [k |-> "L", p] with *)
(* the nests p, or [k |-> "V", v] for a value.                                  *)
EXTENDS FT

NV(v) == [k |-> "V", v |-> v, p |-> <<>>]
NL(p) == [k |-> "L", v |-> <<0, 1>>, p |-> p]

RECURSIVE Dims(_), Rect(_), NestAt(_, _, _), Squeeze(_, _), Expand(_, _, _, _)
Dims(n) == IF n.k = "V" THEN <<>> ELSE IF n.p = <<>> THEN <<0>> ELSE <<Len(n.p)>> \o Dims(n.p[1])
Rect(n) == n.k = "V" \/ \A i \in DOMAIN n.p : Rect(n.p[i]) /\ Dims(n.p[i]) = Dims(n.p[1])

(* the non-default entries, as a set of <<point, value>> *)
NestAt(n, d, pre) ==
  IF n.k = "V" THEN (IF n.v = d THEN {} ELSE {<<pre, n.v>>})
  ELSE UNION {NestAt(n.p[i], d, Append(pre, <<i - 1>>)) : i \in DOMAIN n.p}
NestContent(n, d) == NestAt(n, d, <<>>)

(* the nest of shape sh with this content *)
Expand(S, sh, d, pre) ==
  IF sh = <<>>
  THEN NV(LET here == {x \in S : x[1] = pre} IN IF here = {} THEN d ELSE (CHOOSE x \in here : TRUE)[2])
  ELSE NL([i \in 1..sh[1] |-> Expand({x \in S : x[1][Len(pre) + 1] = <<i - 1>>}, Tail(sh), d, Append(pre, <<i - 1>>))])

(* as executed: all-default parts are squeezed out *)
Squeeze(n, d) ==
  IF n.k = "V" THEN Box(n.v)
  ELSE LET ix == SelectSeq([i \in DOMAIN n.p |-> i], LAMBDA i : NestContent(n.p[i], d) # {}) IN
       MkFiber([j \in DOMAIN ix |-> <<ix[j] - 1>>], [j \in DOMAIN ix |-> Squeeze(n.p[ix[j]], d)],
               IF ix = <<>> THEN "" ELSE "i")

(* no explicit defaults: every leaf differs from d, every fiber below the root has elements *)
RECURSIVE Bare(_, _)
Bare(n, d) == IF n.k # "F" THEN n.v # d ELSE \A i \in DOMAIN n.p : (n.p[i].k = "F" => n.p[i].c # <<>>) /\ Bare(n.p[i], d)

RECURSIVE Points(_)
Points(sh) == IF sh = <<>> THEN {<<>>} ELSE {<<<<c>>>> \o q : c \in 0..(sh[1] - 1), q \in Points(Tail(sh))}
Cells(S) == {x[1] : x \in S}
=============================================================================
