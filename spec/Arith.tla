-------------------------------- MODULE Arith --------------------------------
(* Arithmetic on boxes, elements and fibers. Values are rationals <<n, d>> in   *)
(* lowest terms, d > 0.                                                         *)
EXTENDS FT

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
AbsI(a) == IF a < 0 THEN -a ELSE a
NormS(q) == LET g == GCD(AbsI(q[1]), AbsI(q[2]))
                a == AbsI(q[1]) \div g
                neg == (q[1] < 0) # (q[2] < 0) IN
            IF q[1] = 0 THEN <<0, 1>> ELSE <<IF neg THEN -a ELSE a, AbsI(q[2]) \div g>>
PlusQ(a, b) == NormS(<<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)
MinusQ(a, b) == NormS(<<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>)
TimesQ(a, b) == NormS(<<a[1] * b[1], a[2] * b[2]>>)
OverQ(a, b) == NormS(<<a[1] * b[2], a[2] * b[1]>>)
FloorQ(a) == LET q == IF a[1] >= 0 THEN a[1] \div a[2] ELSE -((-a[1] + a[2] - 1) \div a[2]) IN <<q, 1>>
LtQ(a, b) == a[1] * b[2] < b[1] * a[2]
EqQ(a, b) == a[1] * b[2] = b[1] * a[2]
Bool(x) == IF x THEN <<1, 1>> ELSE <<0, 1>>

Known(op) == op \in {"+", "-", "*", "/", "//", "==", "!=", "<", "<=", ">", ">=", "="}
Undefined(op, a, b) == op \in {"/", "//"} /\ b[1] = 0
Apply(op, a, b) ==
  CASE op = "+" -> PlusQ(a, b)  [] op = "-" -> MinusQ(a, b)
    [] op = "*" -> TimesQ(a, b) [] op = "/" -> OverQ(a, b)
    [] op = "//" -> FloorQ(OverQ(a, b))
    [] op = "==" -> Bool(EqQ(a, b))  [] op = "!=" -> Bool(~EqQ(a, b))
    [] op = "<" -> Bool(LtQ(a, b))   [] op = "<=" -> Bool(~LtQ(b, a))
    [] op = ">" -> Bool(LtQ(b, a))   [] op = ">=" -> Bool(~LtQ(a, b))
    [] op = "=" -> b                                         \* <<=

(* ---- fibers as maps from points to values; d is the default ---- *)
Pts(S) == {x[1] : x \in S}
ValAt(S, p, d) == IF p \in Pts(S) THEN (CHOOSE x \in S : x[1] = p)[2] ELSE d
Proper(S, d) == {x \in S : x[2] # d}
AddMaps(A, B, d) == Proper({<<p, PlusQ(ValAt(A, p, d), ValAt(B, p, d))>> : p \in Pts(A) \cup Pts(B)}, d)
MulMaps(A, B, d) == Proper({<<p, TimesQ(ValAt(A, p, d), ValAt(B, p, d))>> : p \in Pts(A) \cap Pts(B)}, d)
RECURSIVE Grid(_)
Grid(sh) == IF sh = <<>> THEN {<<>>} ELSE {<<<<c>>>> \o q : c \in 0..(sh[1] - 1), q \in Grid(Tail(sh))}
AddScalar(A, s, sh, d) == Proper({<<p, PlusQ(ValAt(A, p, d), s)>> : p \in Grid(sh)} \cup
                                 {x \in A : x[1] \notin Grid(sh)}, d)
ScaleMap(A, s, d) == Proper({<<x[1], TimesQ(x[2], s)>> : x \in A}, d)
=============================================================================
