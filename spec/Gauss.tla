-------------------------------- MODULE Gauss --------------------------------
(* Gaussian-integer vectors and matrices: <<re, im>> entries, exact.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
ZAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
ZMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
ZNeg(a) == <<-a[1], -a[2]>>
ZCon(a) == <<a[1], -a[2]>>
ZS(k, a) == <<k * a[1], k * a[2]>>
Z0 == <<0, 0>>
RECURSIVE ZSum(_, _)
ZSum(f, n) == IF n = 0 THEN Z0 ELSE ZAdd(ZSum(f, n - 1), f[n])
\* <u|v>
Braket(u, v) == ZSum([i \in 1..Len(u) |-> ZMul(ZCon(u[i]), v[i])], Len(u))
MatVec(M, v) == TLCEval([i \in 1..Len(M) |-> ZSum([j \in 1..Len(v) |-> ZMul(M[i][j], v[j])], Len(v))])
Hermitian(M) == \A i, j \in 1..Len(M) : M[i][j] = ZCon(M[j][i])
ZeroVec(v) == \A i \in 1..Len(v) : v[i] = Z0
RECURSIVE PowVec(_, _, _)
PowVec(M, v, k) == IF k = 0 THEN v ELSE MatVec(M, PowVec(M, v, k - 1))
\* determinant by expansion along the first remaining row
RECURSIVE DetR(_, _, _)
DetR(M, r, cols) ==
  IF r > Len(M) THEN <<1, 0>>
  ELSE LET n == Len(cols)
       IN ZSum([c \in 1..n |->
                 LET x == M[r][cols[c]]
                     rest == [j \in 1..(n - 1) |-> IF j < c THEN cols[j] ELSE cols[j + 1]]
                 IN IF x = Z0 THEN Z0
                    ELSE ZS(IF c % 2 = 1 THEN 1 ELSE -1, ZMul(x, DetR(M, r + 1, rest)))], n)
ZDet(M) == DetR(M, 1, [i \in 1..Len(M) |-> i])
\* u^+ adj(M) b = sum over columns by Cramer: replace column j of M by b
Replace(M, j, b) == TLCEval([i \in 1..Len(M) |-> [c \in 1..Len(M) |-> IF c = j THEN b[i] ELSE M[i][c]]])
CramerNum(M, u, b) == ZSum([j \in 1..Len(M) |-> IF u[j] = Z0 THEN Z0 ELSE ZMul(ZCon(u[j]), ZDet(Replace(M, j, b)))], Len(M))
=============================================================================
