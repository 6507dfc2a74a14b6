-------------------------------- MODULE Green --------------------------------
(* Resolvent matrix elements of a Gaussian-integer Hamiltonian H at the       *)
(* Gaussian-rational frequency (p + iq)/r with ground energy e/r, as exact    *)
(* fractions <<numerator, determinant>>.                                      *)
EXTENDS Gauss
\* r ((z - sg E) I + sg H): sg = 1 is z + (H - E), sg = -1 is z - (H - E)
Res(H, p, q, r, e, sg) == TLCEval([i \in 1..Len(H) |-> [j \in 1..Len(H) |->
  ZAdd(ZS(sg * r, H[i][j]), IF i = j THEN <<p - sg * e, q>> ELSE Z0)]])
\* <a| M^{-1} |b> = num / det
Element(H, p, q, r, e, sg, a, b) ==
  LET M == Res(H, p, q, r, e, sg) IN <<ZS(r, CramerNum(M, a, b)), ZDet(M)>>
\* fractions of Gaussian integers
FAdd(x, y) == <<ZAdd(ZMul(x[1], y[2]), ZMul(y[1], x[2])), ZMul(x[2], y[2])>>
FNeg(x) == <<ZNeg(x[1]), x[2]>>
FEq(x, y) == ZMul(x[1], y[2]) = ZMul(y[1], x[2])
FCon(x) == <<ZCon(x[1]), ZCon(x[2])>>
=============================================================================
