------------------------------- MODULE Dyadic -------------------------------
(* Exact Gaussian dyadic numbers <<re, im, e>> standing for (re + i*im)/2^e, *)
(* kept canonical (e = 0 or one of re, im odd), so that = is equality.        *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE DNorm(_, _, _)
DNorm(r, i, e) == IF e > 0 /\ r % 2 = 0 /\ i % 2 = 0
                  THEN DNorm(r \div 2, i \div 2, e - 1) ELSE <<r, i, e>>
DZero == <<0, 0, 0>>
DOne  == <<1, 0, 0>>
DInt(n) == <<n, 0, 0>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
DMul(a, b) == DNorm(a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1], a[3] + b[3])
DAdd(a, b) == IF a[3] >= b[3]
              THEN LET s == Pow2(a[3] - b[3]) IN DNorm(a[1] + s*b[1], a[2] + s*b[2], a[3])
              ELSE LET s == Pow2(b[3] - a[3]) IN DNorm(b[1] + s*a[1], b[2] + s*a[2], b[3])
DConj(a) == <<a[1], -a[2], a[3]>>
DNeg(a)  == <<-a[1], -a[2], a[3]>>
DSub(a, b) == DAdd(a, DNeg(b))
DHalf(a) == DNorm(a[1], a[2], a[3] + 1)

(* Sparse matrices: sets of <<row, col, value>> with non-zero values, one per *)
(* position.                                                                  *)
MEntries(M) == {<<m[1], m[2]>> : m \in M}
MAt(M, r, c) == IF \E m \in M : m[1] = r /\ m[2] = c
                THEN (CHOOSE m \in M : m[1] = r /\ m[2] = c)[3] ELSE DZero
MScale(x, M) == IF x = DZero THEN {} ELSE {<<m[1], m[2], DMul(x, m[3])>> : m \in M}
MAdj(M) == {<<m[2], m[1], DConj(m[3])>> : m \in M}
MAdd(A, B) ==
  LET P == {<<m[1], m[2]>> : m \in A} \cap {<<m[1], m[2]>> : m \in B}
      both == {<<p[1], p[2], DAdd(MAt(A, p[1], p[2]), MAt(B, p[1], p[2]))>> : p \in P}
  IN {m \in A : <<m[1], m[2]>> \notin P} \cup {m \in B : <<m[1], m[2]>> \notin P}
     \cup {m \in both : m[3] # DZero}
RECURSIVE DSumProd(_, _, _, _)
DSumProd(A, B, K, rc) ==
  IF K = {} THEN DZero
  ELSE LET k == CHOOSE x \in K : TRUE
       IN DAdd(DMul(MAt(A, rc[1], k), MAt(B, k, rc[2])), DSumProd(A, B, K \ {k}, rc))
MMul(A, B) ==
  LET pos == {<<a[1], b[2]>> : a \in A, b \in B}
      ks(rc) == {a[2] : a \in {x \in A : x[1] = rc[1]}} \cap {b[1] : b \in {x \in B : x[2] = rc[2]}}
      live == {rc \in pos : ks(rc) # {}}
  IN {m \in {<<rc[1], rc[2], DSumProd(A, B, ks(rc), rc)>> : rc \in live} : m[3] # DZero}
MId(n) == {<<i, i, DOne>> : i \in 0..(n - 1)}
=============================================================================
