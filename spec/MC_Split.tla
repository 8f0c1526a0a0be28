------------------------------ MODULE MC_Split ------------------------------
(* Design model: the declarative partitions of Split.tla against what a split *)
(* must guarantee, and against a one-pass scan that puts each element into    *)
(* the partitions it belongs to.  States: every fiber over NC coordinates,    *)
(* every active range, every split.                                           *)
EXTENDS Split
CONSTANTS NC, MaxHalo, MaxStep
VARIABLES f, a, as, ae, i, parts
vars == <<f, a, as, ae, i, parts>>
D0 == <<0, 1>>
Fibers == {MkFiber(SetToSortSeq({<<c>> : c \in S}, LexLT),
                   [k \in 1..Cardinality(S) |-> Box(Val(k))], "i") : S \in SUBSET (0..(NC - 1))}
Descr(k) == [kind |-> k, step |-> 1, splits |-> <<>>, sizes |-> <<>>, pre |-> 0, post |-> 0, rel |-> FALSE]
Splits ==
  UNION {
   {[Descr(k) EXCEPT !.step = s, !.pre = p, !.post = q, !.rel = r] :
      s \in 1..MaxStep, p \in 0..MaxHalo, q \in 0..MaxHalo, r \in BOOLEAN} : k \in {"uniform", "equal"}}
  \cup {[Descr("nonuniform") EXCEPT !.splits = SetToSortSeq(S, LAMBDA x, y : x < y), !.pre = p, !.post = q] :
          S \in {T \in SUBSET (0..NC) : T # {} /\ Cardinality(T) <= 3}, p \in 0..MaxHalo, q \in 0..MaxHalo}
  \cup {[Descr("unequal") EXCEPT !.sizes = z, !.pre = p] : z \in {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 1, 2>>}, p \in 0..MaxHalo}
Exp == Expected(f, D0, a, as, ae)
Act == {c \in {f.c[k] : k \in DOMAIN f.c} : InActive(c, as, ae)}

(* the scan: elements in order; parts maps an existing partition to its coordinates *)
Init == /\ f \in Fibers /\ a \in Splits
        /\ \E lo \in 0..(NC - 1), hi \in 1..NC : lo < hi /\ as = <<lo>> /\ ae = <<hi>>
        /\ i = 1 /\ parts = [k \in DOMAIN Partitions(f, D0, a, as, ae) |-> <<>>]
Next == /\ i <= Len(f.c)
        /\ parts' = [k \in DOMAIN parts |->
             IF Member(f.c[i], Partitions(f, D0, a, as, ae)[k], a, as, ae) THEN Append(parts[k], f.c[i]) ELSE parts[k]]
        /\ i' = i + 1 /\ UNCHANGED <<f, a, as, ae>>
Spec == Init /\ [][Next]_vars

NoHalo == a.pre = 0 /\ a.post = 0
Covered == a.kind # "nonuniform" \/ Act = {} \/ \A c \in Act : a.splits[1] <= c[1]
(* every active element in exactly one partition, nothing else, in order *)
Lossless == (NoHalo /\ Covered) =>
  LET e == Exp IN
  /\ \A c \in Act : Cardinality({k \in DOMAIN e : \E j \in DOMAIN e[k].orig : e[k].orig[j] = c}) = 1
  /\ FoldLeft(LAMBDA acc, x : acc \o x.orig, <<>>, e) = SetToSortSeq(Act, LexLT)
InsideInterval == NoHalo => \A k \in DOMAIN Exp : \A j \in DOMAIN Exp[k].coords :
  InActive(Exp[k].coords[j], Exp[k].lo, Exp[k].hi)
UpperAscending == \A k \in 1..(Len(Exp) - 1) : Lt(Exp[k].start, Exp[k + 1].start)
ChunkSizes == (a.kind = "equal" /\ NoHalo) =>
  \A k \in DOMAIN Exp : Len(Exp[k].orig) = IF k < Len(Exp) THEN a.step ELSE Cardinality(Act) - a.step * (Len(Exp) - 1)
HaloOnlyAdds ==
  LET n == Expected(f, D0, [a EXCEPT !.pre = 0, !.post = 0], as, ae) IN
  \A k \in DOMAIN n : \E j \in DOMAIN Exp : /\ Exp[j].start = n[k].start
     /\ {n[k].orig[m] : m \in DOMAIN n[k].orig} \subseteq {Exp[j].orig[m] : m \in DOMAIN Exp[j].orig}
RelativeOffsets == a.rel => \A k \in DOMAIN Exp : \A j \in DOMAIN Exp[k].coords :
  Exp[k].coords[j][1] + Exp[k].start[1] = Exp[k].orig[j][1]
(* partitions of partitions tile the original: split every partition again *)
Lower(x) == MkFiber(x.orig, [k \in DOMAIN x.orig |-> Box(Val(1))], "i")
Tiling == (~a.rel /\ Covered) =>
  \A b \in {[Descr("uniform") EXCEPT !.step = 2], [Descr("equal") EXCEPT !.step = 1]} :
    LET e == Exp
        again == [k \in DOMAIN e |-> Expected(Lower(e[k]), D0, b, e[k].lo, e[k].hi)]
        all == FoldLeft(LAMBDA acc, x : acc \o FoldLeft(LAMBDA y, z : y \o z.orig, <<>>, x), <<>>, again)
    IN all = SetToSortSeq(Act, LexLT)
(* the scan ends with the declared partitions *)
ScanAgrees == i > Len(f.c) =>
  SelectSeq(parts, LAMBDA p : p # <<>>) = [k \in DOMAIN Exp |-> Exp[k].orig]
=============================================================================
