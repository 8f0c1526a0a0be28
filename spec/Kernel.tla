------------------------------ MODULE Kernel ------------------------------
(* Sum-of-products kernels as loop nests over sparse operands.                  *)
(* An operand is [v, s]: its variables, and its content as a set of             *)
(* <<point, value>>, a point being a sequence of integers, one per variable.    *)
(* A loop rank is [v, s, lo]: it walks variable v, in tiles of s when s > 0     *)
(* (lo = FALSE: the tile starts, lo = TRUE: the coordinates inside the tile).   *)
EXTENDS FT, TLC

(* ---- the mathematical result ---- *)
Agree(f, vs, pt) == \A i \in DOMAIN vs : vs[i] \in DOMAIN f => f[vs[i]] = pt[i]
Bind(f, vs, pt) == f @@ [x \in {vs[i] : i \in DOMAIN vs} |-> pt[CHOOSE i \in DOMAIN vs : vs[i] = x]]
JoinOp(J, o) == UNION {{<<Bind(j[1], o.v, e[1]), j[2] * e[2]>> : e \in {e \in o.s : Agree(j[1], o.v, e[1])}} : j \in J}
Joint(ops) == FoldLeft(JoinOp, {<<<<>>, 1>>}, ops)
OutPoint(f, out) == [i \in DOMAIN out |-> f[out[i]]]
Result(ops, out) ==
  LET J == Joint(ops)
      pts == {OutPoint(j[1], out) : j \in J}
      sum(p) == FoldSet(LAMBDA j, acc : acc + j[2], 0, {j \in J : OutPoint(j[1], out) = p}) IN
  {<<p, sum(p)>> : p \in {p \in pts : sum(p) # 0}}

(* ---- the loop nest ---- *)
TileOf(x, s) == (x \div s) * s
RankCoord(r, x) == IF r.s > 0 /\ ~r.lo THEN TileOf(x, r.s) ELSE x
HasVar(o, x) == \E i \in DOMAIN o.v : o.v[i] = x
VarAt(o, x) == CHOOSE i \in DOMAIN o.v : o.v[i] = x
(* does the content point q of o lie below the loop prefix p? *)
Below(order, o, p, q) ==
  \A i \in DOMAIN p : HasVar(o, order[i].v) => RankCoord(order[i], q[VarAt(o, order[i].v)]) = p[i]
(* the coordinates an operand offers at the next loop rank *)
Offers(order, o, p) ==
  LET r == order[Len(p) + 1] IN
  {RankCoord(r, e[1][VarAt(o, r.v)]) : e \in {e \in o.s : Below(order, o, p, e[1])}}
Parts(order, ops, i) == {k \in DOMAIN ops : HasVar(ops[k], order[i].v)}
(* bodies at the next rank: leads is the set of operands that must offer the coordinate *)
NextCoords(order, ops, p, leads) ==
  LET P == leads \cap Parts(order, ops, Len(p) + 1)
      k == CHOOSE k \in P : TRUE IN
  {c \in Offers(order, ops[k], p) : \A j \in P : c \in Offers(order, ops[j], p)}
Ordered(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

(* loop prefixes (of every length) at which a body runs, in order; leads[i] as above *)
RECURSIVE Bodies(_, _, _, _)
Bodies(order, ops, leads, p) ==
  IF Len(p) = Len(order) THEN <<>>
  ELSE FoldLeft(LAMBDA acc, c : acc \o <<Append(p, c)>> \o Bodies(order, ops, leads, Append(p, c)), <<>>,
                Ordered(NextCoords(order, ops, p, leads[Len(p) + 1])))
(* the value an operand delivers at a complete prefix: 0 if it holds none *)
Delivers(order, o, p) ==
  LET h == {e \in o.s : Below(order, o, p, e[1])} IN IF h = {} THEN 0 ELSE (CHOOSE e \in h : TRUE)[2]
Product(order, ops, p) == FoldLeft(LAMBDA acc, o : acc * Delivers(order, o, p), 1, ops)

(* operations of the innermost bodies, in order: one product of the operands, and one   *)
(* accumulation, which adds when there is something to add to                            *)
OutKey(order, out, p) == SelectSeq([i \in DOMAIN order |-> IF \E k \in DOMAIN out : out[k] = order[i].v THEN <<i, p[i]>> ELSE <<0, 0>>],
                                   LAMBDA x : x[1] # 0)
(* body: what the innermost body does with the product x of the operands --              *)
(*   "acc" z += x      "set" z <<= z + x      "scale" x = 2 * x; z += x                   *)
(*   "temp" t = 0; t += x; t *= 3; z += t                                                 *)
(* -- after leaving out x = 0 when filt is set                                            *)
BodyOf(b) == CASE b = "acc" -> [k |-> 1, mul |-> 0, upd |-> 1, add |-> FALSE]
               [] b = "set" -> [k |-> 1, mul |-> 0, upd |-> 1, add |-> TRUE]
               [] b = "scale" -> [k |-> 2, mul |-> 1, upd |-> 1, add |-> FALSE]
               [] b = "temp" -> [k |-> 3, mul |-> 1, upd |-> 3, add |-> FALSE]
RECURSIVE Accumulate(_, _, _, _, _)
Accumulate(order, ops, out, inner, acc) ==
  (* acc = [z |-> function from output keys to sums, add, upd, mul, b body, f filter] *)
  IF inner = <<>> THEN acc
  ELSE LET p == Head(inner)
           k == OutKey(order, out, p)
           old == IF k \in DOMAIN acc.z THEN acc.z[k] ELSE 0
           x == Product(order, ops, p)
           m == [acc EXCEPT !.mul = @ + Len(ops) - 1] IN
       Accumulate(order, ops, out, Tail(inner),
                  IF acc.f /\ x = 0 THEN m
                  ELSE [m EXCEPT !.z = (k :> (old + acc.b.k * x)) @@ @,
                                 !.add = @ + (IF old # 0 \/ acc.b.add THEN 1 ELSE 0),
                                 !.upd = @ + acc.b.upd,
                                 !.mul = @ + acc.b.mul])
BodyOps(order, ops, out, leads, body, filt) ==
  Accumulate(order, ops, out, SelectSeq(Bodies(order, ops, leads, <<>>), LAMBDA p : Len(p) = Len(order)),
             [z |-> <<>>, add |-> 0, upd |-> 0, mul |-> 0, b |-> BodyOf(body), f |-> filt])
Ops(order, ops, out, leads) == BodyOps(order, ops, out, leads, "acc", FALSE)

(* ---- reading a recorded operand or output ---- *)
(* content of a tree with integer coordinates as <<sequence of ints, int>> *)
Points(n) == {<<[i \in DOMAIN x[1] |-> x[1][i][1]], x[2][1]>> : x \in Content(n, <<0, 1>>)}
Integral(n) == \A x \in Content(n, <<0, 1>>) : x[2][2] = 1 /\ \A i \in DOMAIN x[1] : Len(x[1][i]) = 1
=============================================================================
