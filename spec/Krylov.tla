------------------------------- MODULE Krylov -------------------------------
(* Krylov sequences v, Mv, M^2 v, ... of Hermitian Gaussian-integer matrices. *)
(* Ranks are computed in prime fields with a square root of -1; the largest   *)
(* over three primes is the rank over the Gaussian rationals whenever some    *)
(* maximal minor has a norm below the product of the primes (10^13).          *)
EXTENDS Gauss
Ps == <<46337, 46309, 32713>>     \* all 1 mod 4
RECURSIVE PowMod(_, _, _)
PowMod(a, e, p) == IF e = 0 THEN 1
  ELSE LET h == PowMod((a * a) % p, e \div 2, p) IN IF e % 2 = 1 THEN (a * h) % p ELSE h
\* a square root of -1 modulo p = 1 mod 4
RootM1(p) == LET g == CHOOSE x \in 2..60 : PowMod(x, (p - 1) \div 2, p) = p - 1
             IN PowMod(g, (p - 1) \div 4, p)
Roots == [i \in 1..Len(Ps) |-> RootM1(Ps[i])]
Inv(a, p) == PowMod(a, p - 2, p)
Red(z, p, w) == ((z[1] % p) + (((z[2] % p) * w) % p)) % p
\* rank of a sequence of vectors over F_p by elimination
RECURSIVE Elim(_, _, _)
Elim(rows, p, r) ==
  IF rows = <<>> THEN r
  ELSE LET row == Head(rows)
           nz == {c \in 1..Len(row) : row[c] # 0}
       IN IF nz = {} THEN Elim(Tail(rows), p, r)
          ELSE LET c == CHOOSE x \in nz : TRUE
                   iv == Inv(row[c], p)
                   sub(q) == LET f == (q[c] * iv) % p
                             IN [x \in 1..Len(q) |-> (q[x] + (((p - f) * row[x]) % p)) % p]
                   rest == TLCEval([i \in 1..(Len(rows) - 1) |-> TLCEval(sub(rows[i + 1]))])
               IN Elim(rest, p, r + 1)
RankP(vs, i) == Elim(TLCEval([j \in 1..Len(vs) |-> [x \in 1..Len(vs[j]) |-> Red(vs[j][x], Ps[i], Roots[i])]]), Ps[i], 0)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Rank(vs) == MaxOf({RankP(vs, i) : i \in 1..Len(Ps)})
MinNat(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE KSeq(_, _, _)
KSeq(M, v, n) == IF n = 1 THEN <<v>> ELSE LET q == KSeq(M, v, n - 1) IN Append(q, MatVec(M, q[n - 1]))
KrylovRank(M, v) == Rank(KSeq(M, v, Len(M)))
Moment(M, u, v, k) == Braket(u, PowVec(M, v, k))

(* Paths: a chain of basis states, each coupled to the next, whose Krylov     *)
(* spaces are known at any size. The i-th place of path P is basis state      *)
(* pos[i] with phase i^f[i], on-site value a[i], coupling b[i] >= 0 to the    *)
(* next place. A start at place p has an end of its piece on one side.        *)
Phase(e) == CASE e % 4 = 0 -> <<1, 0>> [] e % 4 = 1 -> <<0, 1>> [] e % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
PathMat(P) ==
  LET n == Len(P.a)
      at == [r \in 1..n |-> CHOOSE i \in 1..n : P.pos[i] = r]
      amp(i, j) == IF i = j THEN P.a[i] ELSE IF j = i + 1 THEN P.b[i] ELSE IF i = j + 1 THEN P.b[j] ELSE 0
  IN TLCEval([r \in 1..n |-> [c \in 1..n |-> ZS(amp(at[r], at[c]), Phase(P.f[at[r]] + 3 * P.f[at[c]]))]])
FreeBelow(P, p) == p = 1 \/ P.b[p - 1] = 0
FreeAbove(P, p) == p = Len(P.a) \/ P.b[p] = 0
PathStart(P, p) == FreeBelow(P, p) \/ FreeAbove(P, p)
PathStep(P, p) == IF FreeBelow(P, p) THEN 1 ELSE -1
PathReach(P, p) ==
  LET n == Len(P.a) IN
  IF FreeBelow(P, p)
  THEN MinNat({i \in p..n : FreeAbove(P, i)}) - p + 1
  ELSE p - MaxOf({i \in 1..p : FreeBelow(P, i)}) + 1
PathPlace(P, p, j) == p + PathStep(P, p) * (j - 1)
PathDiag(P, p, j) == P.a[PathPlace(P, p, j)]
PathOff(P, p, j) == LET x == PathPlace(P, p, j) IN P.b[IF PathStep(P, p) = 1 THEN x ELSE x - 1]
\* <j-th Krylov vector|u> for the start i^g e_pos[p], u a function of the basis states
PathProj(P, p, g, j, u) ==
  LET x == PathPlace(P, p, j) IN ZMul(Phase(3 * g + P.f[p] + 3 * P.f[x]), u[P.pos[x]])
=============================================================================
