------------------------------ MODULE Response ------------------------------
(* Linear response of lattice models: the closed relations that retarded      *)
(* Green functions G(A, B; z) of any eigenstate obey.                         *)
(*  Equation of motion of an annihilator:                                     *)
(*    z G(c_a, B) = <{c_a, B}> + G([c_a, H], B),                              *)
(*    [c_a, H] = sum_b h_ab c_b + sum_b W_ab n_b c_a + sum_b D_ab c+_b.       *)
(*  Bloch matrix of hopping t at the wave vector of phases i^kap: the Green   *)
(*  function of the infinite lattice is the inverse of z - Bloch.             *)
(*  One magnon on a fully polarised state: G is the inverse of z - Magnon.    *)
(* Weights are integers in units of 1/16.                                     *)
EXTENDS Model
RECURSIVE SumOver(_, _)
SumOver(F, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN F[x] + SumOver(F, S \ {x})
RECURSIVE CSum(_, _)
CSum(F, S) == IF S = {} THEN CZero ELSE LET x == CHOOSE y \in S : TRUE IN CAdd(F[x], CSum(F, S \ {x}))
Total(W) == CSum([x \in W |-> x[2]], W)
\* all strings <<key, weight, ops>> with a unique key
Strings(L, m) == {<<<<x[1], x[2], x[3][1], x[3][2]>>, x[3][3], x[3][4]>> : x \in AllStrings(L, m)}
Slot(o) == <<o[1], o[2], o[3]>>
\* hopping and potential; a density times itself is that density
HopKey(s, a, b) ==
  IF Len(s[3]) = 2 THEN s[3][1] = Append(a, CR) /\ s[3][2] = Append(b, AN)
  ELSE a = b /\ Slot(s[3][1]) = a /\ Slot(s[3][3]) = a
\* density-density, a # b
DenKey(s, a, b) == Len(s[3]) = 4 /\ a # b /\ {Slot(s[3][1]), Slot(s[3][3])} = {a, b}
\* creation pairs c+_x c+_y: +1 for a first, -1 for a second
PairSum(S, a, b) == CAdd(
  Total({<<s[1], s[2]>> : s \in {x \in S : Len(x[3]) = 2 /\ x[3][1] = Append(a, CR) /\ x[3][2] = Append(b, CR)}}),
  CNeg(Total({<<s[1], s[2]>> : s \in {x \in S : Len(x[3]) = 2 /\ x[3][1] = Append(b, CR) /\ x[3][2] = Append(a, CR)}})))
Kernel(L, m) ==
  LET S == Strings(L, m)
      M == ModesOf(L, m)
  IN [h |-> TLCEval([x \in M \X M |-> Total({<<s[1], s[2]>> : s \in {y \in S : HopKey(y, x[1], x[2])}})]),
      W |-> TLCEval([x \in M \X M |-> Total({<<s[1], s[2]>> : s \in {y \in S : DenKey(y, x[1], x[2])}})]),
      D |-> TLCEval([x \in M \X M |-> PairSum(S, x[1], x[2])])]

\* powers of i
IPow(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, 1>> [] n % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
DotN(a, b) == SumOver([i \in 1..Len(a) |-> a[i] * b[i]], 1..Len(a))
\* every oriented hop <<shell, <<i, j, n>>>> with amplitude t[shell], imaginary part ti[shell] along its sign
Hops(L, t) == UNION {{<<n, x>> : x \in UNION Classes(L, n, TRUE)} : n \in 1..Len(t)}
Bloch(L, t, ti, mu, kap) ==
  LET H == Hops(L, t)
  IN [i \in 1..Len(L.P) |-> [j \in 1..Len(L.P) |->
       CAdd(IF i = j THEN <<mu, 0>> ELSE CZero,
            LET S == {x \in H : x[2][1] = i /\ x[2][2] = j}
            IN CSum([x \in S |-> CMul(<<t[x[1]], Sgn(L, x[2]) * ti[x[1]]>>, IPow(DotN(kap, x[2][3])))], S))]]
\* the cluster of mult[i] cells along V[i]
RECURSIVE Cells(_)
Cells(mult) == IF mult = <<>> THEN {<<>>}
  ELSE {<<a>> \o r : a \in 0..(mult[1] - 1), r \in Cells(Tail(mult))}
CellOrder(mult) == LET RECURSIVE F(_)
                       F(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o F(S \ {x})
                   IN F(Cells(mult))
\* <<cell, index>> of every site of the larger cluster
Members(L, mult) == LET c == CellOrder(mult)
                        n == Len(L.P)
                    IN [k \in 1..(Len(c) * n) |-> <<c[((k - 1) \div n) + 1], ((k - 1) % n) + 1>>]
Bigger(L, mult) ==
  LET mb == Members(L, mult)
  IN Make(L.d, L.G, [k \in 1..Len(mb) |-> VAdd(L.P[mb[k][2]], Translate(L, mb[k][1]))],
          [i \in 1..L.k |-> [j \in 1..L.d |-> mult[i] * L.V[i][j]]])

\* one flipped spin on the fully polarised state: ref = {} (all up) or all sites (all down)
Flipped(ref, i) == FlipAt(ref, i)
ValAt(f, T) == IF T \in DOMAIN f THEN f[T] ELSE CZero
Magnon(sh, m, N, ref) ==
  LET pos == [i \in 1..N |-> i]
      e0 == ValAt(SpinColumn(sh, m, pos, ref), ref)
      cols == [j \in 1..N |-> SpinColumn(sh, m, pos, Flipped(ref, j))]
  IN [i \in 1..N |-> [j \in 1..N |-> CAdd(ValAt(cols[j], Flipped(ref, i)), IF i = j THEN CNeg(e0) ELSE CZero)]]
=============================================================================
