------------------------------ MODULE Intersect ------------------------------
(* What intersection and merge hardware would do (C19).                         *)
(* A, B: strictly increasing coordinate lists of the two operands of one fiber. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

(* the steps of a two-finger merge before either list is exhausted *)
RECURSIVE StepsFrom(_, _, _, _)
StepsFrom(A, B, i, j) ==
  IF i > Len(A) \/ j > Len(B) THEN <<>>
  ELSE IF A[i] = B[j] THEN <<"m">> \o StepsFrom(A, B, i + 1, j + 1)
  ELSE IF A[i] < B[j] THEN <<"a">> \o StepsFrom(A, B, i + 1, j)
  ELSE <<"b">> \o StepsFrom(A, B, i, j + 1)
Steps(A, B) == StepsFrom(A, B, 1, 1)
TwoFinger(A, B) == Len(Steps(A, B))
(* a skip jumps over a maximal run of one side; a match is a step of its own *)
SkipAhead(A, B) == LET s == Steps(A, B) IN Cardinality({i \in DOMAIN s : s[i] = "m" \/ i = 1 \/ s[i - 1] # s[i]})
(* what an operand presents to the co-iteration: the elements consumed and, when *)
(* it is the other one that runs out, the one its finger is left on             *)
Presented(A, B) == LET s == Steps(A, B)
                       n == Cardinality({i \in DOMAIN s : s[i] # "b"}) IN
                   SubSeq(A, 1, IF n < Len(A) THEN n + 1 ELSE n)
Matches(A, B) == Cardinality({i \in DOMAIN Steps(A, B) : Steps(A, B)[i] = "m"})

(* ---- merging ---- *)
(* Lists of coordinates, merged radix at a time until one is left.  unb: the    *)
(* latency is unbounded and comparisons are counted; else lat per list and per  *)
(* element.                                                                     *)
NonNull(ls) == SelectSeq(ls, LAMBDA x : x # <<>>)
Total(ls) == FoldLeft(LAMBDA a, x : a + Len(x), 0, ls)
Merged(ls) == SortSeq(FlattenSeq(ls), <)

(* The heads are kept sorted: inserting one passes over the heads that are to   *)
(* be delivered before it, and takes one comparison more.                       *)
(* Equal coordinates leave in the order "last list first".                      *)
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] > y[2])
InsertCost(H, x) == 1 + Cardinality({y \in H : Before(y, x)})
RECURSIVE FillCost(_, _, _), DrainCost(_, _, _)
FillCost(ls, i, H) == IF i > Len(ls) THEN 0 ELSE InsertCost(H, <<ls[i][1], i>>) + FillCost(ls, i + 1, H \cup {<<ls[i][1], i>>})
DrainCost(ls, H, at) ==    \* at[i]: index of the head of list i
  IF H = {} THEN 0
  ELSE LET x == CHOOSE v \in H : \A w \in H \ {v} : Before(v, w)
           i == x[2]
           R == H \ {x} IN
       IF at[i] = Len(ls[i]) THEN DrainCost(ls, R, at)
       ELSE LET y == <<ls[i][at[i] + 1], i>> IN InsertCost(R, y) + DrainCost(ls, R \cup {y}, [at EXCEPT ![i] = @ + 1])
Compares(ls) == FillCost(ls, 1, {}) + DrainCost(ls, {<<ls[i][1], i>> : i \in DOMAIN ls}, [i \in DOMAIN ls |-> 1])
MergeCost(ls, unb, lat) == IF unb THEN Compares(ls) ELSE lat * (Len(ls) + Total(ls))

Min2(a, b) == IF a < b THEN a ELSE b
(* radix 0: all at once *)
RECURSIVE Rounds(_, _, _, _)
Rounds(ls, radix, unb, lat) ==
  IF Len(ls) <= 1 THEN 0
  ELSE LET r == IF radix = 0 THEN Len(ls) ELSE Min2(radix, Len(ls))
           n == (Len(ls) + r - 1) \div r
           g == [i \in 1..n |-> SubSeq(ls, (i - 1) * r + 1, Min2(i * r, Len(ls)))] IN
       FoldLeft(LAMBDA a, x : a + MergeCost(x, unb, lat), 0, g) + Rounds([i \in 1..n |-> Merged(g[i])], radix, unb, lat)

(* T: a tree of [c, k]; the fibers at depth d have their children merged *)
RECURSIVE FibersAt(_, _)
FibersAt(k, d) == IF d = 0 THEN <<k>> ELSE FlattenSeq([i \in DOMAIN k |-> FibersAt(k[i].k, d - 1)])
ListsOf(k) == NonNull([i \in DOMAIN k |-> [j \in DOMAIN k[i].k |-> k[i].k[j].c]])
Swaps(k, d, radix, unb, lat) ==
  LET fs == FibersAt(k, d) IN FoldLeft(LAMBDA a, f : a + Rounds(ListsOf(f), radix, unb, lat), 0, fs)
=============================================================================
