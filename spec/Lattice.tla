------------------------------- MODULE Lattice -------------------------------
(* Periodic point sets in exact integer arithmetic. Sites are integer vectors *)
(* in a frame of dimension d <= 3 with integer Gram matrix G (squared length  *)
(* Q); a cluster is a sequence P of pairwise inequivalent sites and a         *)
(* sequence V of k <= d independent translations. The infinite lattice is     *)
(* every P[i] + n.V with integer n.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Sum3(f, d) == IF d = 1 THEN f[1] ELSE IF d = 2 THEN f[1] + f[2] ELSE f[1] + f[2] + f[3]
Dot(a, b) == Sum3([i \in 1..Len(a) |-> a[i] * b[i]], Len(a))
Q(G, w) == Dot([i \in 1..Len(w) |-> Dot(G[i], w)], w)
Inner(G, v, w) == Dot([i \in 1..Len(w) |-> Dot(G[i], v)], w)

(* adjugate and determinant, d <= 3 *)
Cof(W, d, i, j) ==
  IF d = 1 THEN 1
  ELSE IF d = 2 THEN (IF i = j THEN 1 ELSE -1) * W[3 - i][3 - j]
  ELSE LET a == (i % 3) + 1
           b == ((i + 1) % 3) + 1
           c == (j % 3) + 1
           e == ((j + 1) % 3) + 1
       IN W[a][c] * W[b][e] - W[a][e] * W[b][c]
Det(W, d) == Sum3([j \in 1..d |-> W[1][j] * Cof(W, d, 1, j)], d)
UnitV(d, i) == [j \in 1..d |-> IF i = j THEN 1 ELSE 0]
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == MinSet(S) IN <<m>> \o Asc(S \ {m})
\* V completed to a basis of the frame
Completion(V, d) ==
  LET us == CHOOSE S \in {T \in SUBSET (1..d) : Cardinality(T) = d - Len(V)} :
              Det(V \o [i \in 1..(d - Len(V)) |-> UnitV(d, Asc(S)[i])], d) # 0
  IN V \o [i \in 1..(d - Len(V)) |-> UnitV(d, Asc(us)[i])]
Independent(V, d) == \E S \in {T \in SUBSET (1..d) : Cardinality(T) = d - Len(V)} :
              Det(V \o [i \in 1..(d - Len(V)) |-> UnitV(d, Asc(S)[i])], d) # 0

\* everything needed about a cluster, computed once
Make(d, G, P, V) ==
  LET W == Completion(V, d)
      dt == Det(W, d)
      sg == IF dt < 0 THEN -1 ELSE 1
  IN [d |-> d, G |-> G, P |-> P, V |-> V, k |-> Len(V), det |-> sg * dt,
      inv |-> [i \in 1..d |-> [j \in 1..d |-> sg * Cof(W, d, i, j)]],  \* row i: cofactors of W row i
      dG |-> Det(G, d), cG |-> MaxSet({Cof(G, d, i, i) : i \in 1..d}),
      diffs |-> {VSub(P[j], P[i]) : i \in 1..Len(P), j \in 1..Len(P)}]
\* coefficient numerators of w over the completed basis
Num(L, w) == [i \in 1..L.d |-> Dot(w, L.inv[i])]
IsTrans(L, w) == \A i \in 1..L.d : IF i <= L.k THEN Num(L, w)[i] % L.det = 0 ELSE Num(L, w)[i] = 0
TransOf(L, w) == [i \in 1..L.k |-> Num(L, w)[i] \div L.det]
Translate(L, n) == [j \in 1..L.d |-> Sum3([i \in 1..L.k |-> n[i] * L.V[i][j]], L.k)]
Inequivalent(L) == \A i, j \in 1..Len(L.P) : i # j => ~IsTrans(L, VSub(L.P[i], L.P[j]))

Decompositions(L, x) == {i \in 1..Len(L.P) : IsTrans(L, VSub(x, L.P[i]))}
InLattice(L, x) == Decompositions(L, x) # {}
Home(L, x) == CHOOSE i \in Decompositions(L, x) : TRUE
IndexOfSite(L, x) == {i \in 1..Len(L.P) : L.P[i] = x}

(* All n.V with |u + n.V|^2 <= R2 for some u in diffs lie in this box:        *)
(* components of a vector of squared length R2 are at most sqrt(R2*cG/dG).    *)
RECURSIVE ISqrtUp(_, _)
ISqrtUp(x, c) == IF c * c >= x THEN c ELSE ISqrtUp(x, c + 1)
CompMax(L, R2) == ISqrtUp((R2 * L.cG) \div L.dG + 1, 0)
BoxBound(L, R2) ==
  LET cm == CompMax(L, R2)
      w == [j \in 1..L.d |-> cm + MaxSet({Abs(u[j]) : u \in L.diffs})]
  IN [i \in 1..L.k |-> Sum3([j \in 1..L.d |-> w[j] * Abs(L.inv[i][j])], L.d) \div L.det]
Tuples(B) == IF Len(B) = 1 THEN {<<a>> : a \in (-B[1])..B[1]}
  ELSE IF Len(B) = 2 THEN {<<a, b>> : a \in (-B[1])..B[1], b \in (-B[2])..B[2]}
  ELSE {<<a, b, c>> : a \in (-B[1])..B[1], b \in (-B[2])..B[2], c \in (-B[3])..B[3]}
\* squared distances up to R2 (complete), 0 included
DistSetIn(L, R2, box) ==
  LET TR == {Translate(L, n) : n \in Tuples(box)}
  IN {x \in {Q(L.G, VAdd(u, t)) : u \in L.diffs, t \in TR} : x <= R2}
DistSet(L, R2) == DistSetIn(L, R2, BoxBound(L, R2))
MinV2(L) == MinSet({Q(L.G, L.V[i]) : i \in 1..L.k})
RECURSIVE DropMin(_, _)
DropMin(S, n) == IF n = 0 THEN MinSet(S) ELSE DropMin(S \ {MinSet(S)}, n - 1)
RECURSIVE NthFrom(_, _, _)
NthFrom(L, n, R2) == LET S == DistSet(L, R2) IN
  IF Cardinality(S) > n THEN DropMin(S, n) ELSE NthFrom(L, n, 2 * R2)
RECURSIVE FirstFrom(_, _, _)
FirstFrom(L, n, R2) == LET S == DistSet(L, R2) IN
  IF Cardinality(S) > n THEN [i \in 1..n |-> DropMin(S, i)] ELSE FirstFrom(L, n, 2 * R2)
FirstDists(L, n) == FirstFrom(L, n, MinV2(L))
\* the n-th smallest squared distance of the infinite lattice (0th is 0)
NthD2(L, n) == IF n = 0 THEN 0 ELSE NthFrom(L, n, MinV2(L))

(* A bond class is the set of the two ways to write an unordered pair of      *)
(* sites up to translation: from P[i] to P[j] + n.V and back.                 *)
NegV(n) == [i \in 1..Len(n) |-> -n[i]]
BondClass(i, j, n) == {<<i, j, n>>, <<j, i, NegV(n)>>}
ClassesIn(L, lo, hi, box) ==
  LET N == {<<n, Translate(L, n)>> : n \in Tuples(box)}
      near == {t \in {<<i, j, m>> : i \in 1..Len(L.P), j \in 1..Len(L.P), m \in N} :
                 LET q == Q(L.G, VAdd(VSub(L.P[t[2]], L.P[t[1]]), t[3][2])) IN q > lo /\ q <= hi}
  IN {BondClass(t[1], t[2], t[3][1]) : t \in near}
Classes(L, n, only) ==
  LET hi == NthD2(L, n)
      lo == IF only THEN hi - 1 ELSE 0
  IN ClassesIn(L, lo, hi, BoxBound(L, hi))
ZeroN(L) == [i \in 1..L.k |-> 0]
IntraClass(L, c) == \E t \in c : t[3] = ZeroN(L)
=============================================================================
