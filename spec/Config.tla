------------------------------- MODULE Config -------------------------------
(* Five module-level settings: digits of the site, bond and lattice modules,  *)
(* thresholds (<<a, m>>: a / 10^m) of the Krylov and rotation modules. Every  *)
(* judgement depends on exactly one of them. Lengths are integers over a      *)
(* power of ten: [e |-> vector, m |-> exponent].                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Modules == {"site", "bond", "lattice", "krylov", "rotation"}
Digital == {"site", "bond", "lattice"}
Default == [x \in Modules |-> CASE x \in Digital -> <<1, 4>> [] x = "krylov" -> <<1, 4>> [] OTHER -> <<1, 10>>]
RECURSIVE Ten(_)
Ten(n) == IF n <= 0 THEN 1 ELSE 10 * Ten(n - 1)
RECURSIVE SqSum(_, _)
SqSum(e, i) == IF i = 0 THEN 0 ELSE e[i] * e[i] + SqSum(e, i - 1)
Norm2(e) == SqSum(e, Len(e))
\* |e| / 10^m < t[1] / 10^t[2]  (for |e|^2 < 10^7, t[1] < 100)
Shorter(e, m, t) ==
  LET n == Norm2(e)
      a == t[1] * t[1]
      k == 2 * (m - t[2])                       \* n < a * 10^k
  IN IF n = 0 THEN t[1] > 0
     ELSE IF k >= 0 THEN (IF k > 6 THEN a > 0 ELSE n < a * Ten(k))
     ELSE IF -k > 3 THEN FALSE ELSE n * Ten(-k) < a
(* digits: an integer over 10^m truncated to p digits *)
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Ab(x) == IF x < 0 THEN -x ELSE x
TruncAt(x, p, m) == IF p >= m THEN x ELSE Sgn(x) * (Ab(x) \div Ten(m - p))
Trunc(x, p) == TruncAt(x, p, 6)
SameAt(a, b, p, m) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : TruncAt(a[i], p, m) = TruncAt(b[i], p, m)
Same(a, b, p) == SameAt(a, b, p, 6)

(* a cluster is accepted iff its shapes fit and nothing in it is twice there *)
Fits(n, d, k, dv) == d <= 3 /\ k <= d /\ dv = d
\* rows: integer base points plus offsets; equal bases alone can be too close
Twice(rows, m, t) == \E i, j \in 1..Len(rows) : i < j /\ rows[i].b = rows[j].b
                       /\ Shorter([c \in 1..Len(rows[i].e) |-> rows[i].e[c] - rows[j].e[c]], m, t)

(* neighbour shells of the chain with points 0 and 1 + e/10^m, vector 2: the  *)
(* distances 1 + e/10^m and 1 - e/10^m are one shell iff they agree to the    *)
(* precision; even distances are always shells                                *)
Split(e, m, t) == ~Shorter(<<2 * e>>, m, t)
\* the n-th distance as <<integer, multiple of e/10^m>>
Shell(n, split) ==
  IF n = 0 THEN <<0, 0>>
  ELSE IF ~split THEN <<n, 0>>
  ELSE CASE n % 3 = 0 -> <<2 * (n \div 3), 0>> [] n % 3 = 1 -> <<2 * (n \div 3) + 1, -1>> [] OTHER -> <<2 * (n \div 3) + 1, 1>>
\* bonds per cell on the odd shells: two when merged, else one
Bonds1(split) == IF split THEN 1 ELSE 2

(* Krylov dimension of the chain with couplings c[i]/10^m from the first site *)
RECURSIVE Lead(_, _, _, _)
Lead(c, m, t, i) == IF i > Len(c) THEN i ELSE IF Shorter(<<c[i]>>, m, t) THEN i ELSE Lead(c, m, t, i + 1)
KrylovDim(c, m, t) == Lead(c, m, t, 1)
=============================================================================
