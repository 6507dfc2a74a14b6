--------------------------------- MODULE Rot ---------------------------------
(* Rotations of space in fixed point (unit 1/U). One definition serves every  *)
(* axis: R(n, t) v = v cos t + (n x v) sin t + n (n.v) (1 - cos t), the       *)
(* counterclockwise rotation seen from the tip of n.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
U == 20000
RD(a, b) == (2 * a + b) \div (2 * b)          \* nearest integer, b > 0
FM(a, b) == RD(a * b, U)
RECURSIVE ISq(_, _)
ISq(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISq(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISq(n, 46340)
\* cosines of 0, 15, ..., 90 degrees
Cos15 == <<20000, 19319, 17321, 14142, 10000, 5176, 0>>
CosDeg(d) == LET m == d % 360 IN
  IF m <= 90 THEN Cos15[(m \div 15) + 1]
  ELSE IF m <= 180 THEN -Cos15[((180 - m) \div 15) + 1]
  ELSE IF m <= 270 THEN -Cos15[((m - 180) \div 15) + 1]
  ELSE Cos15[((360 - m) \div 15) + 1]
\* an angle is given by degrees (a multiple of 15) or by a right triangle p, q, r
CS(a) == IF a.k = "deg" THEN <<CosDeg(a.d), CosDeg(a.d - 90)>> ELSE <<RD(U * a.p, a.r), RD(U * a.q, a.r)>>
AngleOK(a) == IF a.k = "deg" THEN a.d % 15 = 0 ELSE a.p * a.p + a.q * a.q = a.r * a.r /\ a.r > 0
Norm2(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
\* unit vector along an integer axis, |coordinate| <= 4
UnitVec(v) == LET s == ISqrt(Norm2(v) * 36000000) IN TLCEval([i \in 1..3 |-> RD(U * 6000 * v[i], s)])
Sph(al, be) == LET A == CS(al)
                   B == CS(be) IN TLCEval(<<FM(B[2], A[1]), FM(B[2], A[2]), B[1]>>)
Cross(n, i, j) == \* entry (i, j) of the matrix v |-> n x v
  IF i = j THEN 0
  ELSE LET l == 6 - i - j IN IF (j - i) \in {1, -2} THEN -n[l] ELSE n[l]
Rodr(n, cs) == TLCEval([i \in 1..3 |-> [j \in 1..3 |->
   (IF i = j THEN cs[1] ELSE 0) + FM(Cross(n, i, j), cs[2]) + FM(FM(n[i], n[j]), U - cs[1])]])
MulM(A, B) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> FM(A[i][1], B[1][j]) + FM(A[i][2], B[2][j]) + FM(A[i][3], B[3][j])]])
App(A, v) == TLCEval([i \in 1..3 |-> FM(A[i][1], v[1]) + FM(A[i][2], v[2]) + FM(A[i][3], v[3])])
NegM(A) == [i \in 1..3 |-> [j \in 1..3 |-> -A[i][j]]]
Trn(A) == [i \in 1..3 |-> [j \in 1..3 |-> A[j][i]]]
IdM == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN U ELSE 0]]
DetF(A) == FM(A[1][1], FM(A[2][2], A[3][3]) - FM(A[2][3], A[3][2]))
         - FM(A[1][2], FM(A[2][1], A[3][3]) - FM(A[2][3], A[3][1]))
         + FM(A[1][3], FM(A[2][1], A[3][2]) - FM(A[2][2], A[3][1]))
AxisM(ax, cs) == Rodr(UnitVec(IF ax = "x" THEN <<1, 0, 0>> ELSE IF ax = "y" THEN <<0, 1, 0>> ELSE <<0, 0, 1>>), cs)
EulerM(a, b, c) == MulM(AxisM("z", a), MulM(AxisM("y", b), AxisM("z", c)))
CloseM(A, B, tol) == \A i, j \in 1..3 : A[i][j] - B[i][j] <= tol /\ B[i][j] - A[i][j] <= tol
CloseV(a, b, tol) == \A i \in 1..3 : a[i] - b[i] <= tol /\ b[i] - a[i] <= tol
Maybe(inv, A) == IF inv THEN NegM(A) ELSE A
=============================================================================
