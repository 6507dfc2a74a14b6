------------------------------- MODULE Hilbert -------------------------------
(* Occupation bases. A specifier is <<states, n>>: n particles in the given     *)
(* sequence of states (any number when n < 0).                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
StatesOf(sp) == {sp[1][i] : i \in 1..Len(sp[1])}
Few(n, S) == CASE n = 0 -> {{}} [] n = 1 -> {{x} : x \in S} [] n = 2 -> {T \in {{x, y} : x, y \in S} : Cardinality(T) = 2}
               [] OTHER -> kSubset(n, S)
Choose(n, S) == IF 2 * n > Cardinality(S) THEN {S \ T : T \in Few(Cardinality(S) - n, S)} ELSE Few(n, S)
Configs(sp) == IF sp[2] < 0 THEN SUBSET StatesOf(sp) ELSE Choose(sp[2], StatesOf(sp))
RECURSIVE SectorFrom(_, _)
SectorFrom(sps, i) == IF i > Len(sps) THEN {{}}
                      ELSE LET rest == SectorFrom(sps, i + 1)
                           IN {a \cup b : a \in Configs(sps[i]), b \in rest}
Sector(sps) == SectorFrom(sps, 1)
\* occupied sets ordered as the integers they stand for
LtKet(A, B) == LET D == (A \ B) \cup (B \ A)
               IN D # {} /\ (CHOOSE x \in D : \A y \in D : y <= x) \in B
\* large sectors: how many configurations, and which place one has in ascending order
RECURSIVE ChooseNum(_, _)
ChooseNum(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE (ChooseNum(n - 1, k - 1) * n) \div k
Size(sp) == IF sp[2] < 0 THEN 2^Len(sp[1]) ELSE ChooseNum(Len(sp[1]), sp[2])
RECURSIVE SizeFrom(_, _)
SizeFrom(sps, i) == IF i > Len(sps) THEN 1 ELSE Size(sps[i]) * SizeFrom(sps, i + 1)
InSector(A, sps) == /\ A \subseteq UNION {StatesOf(sps[i]) : i \in 1..Len(sps)}
                    /\ \A i \in 1..Len(sps) : sps[i][2] < 0 \/ Cardinality(A \cap StatesOf(sps[i])) = sps[i][2]
\* number of sector members below A for a single specifier: go down from the highest state,
\* count what is passed over at each occupied one
RECURSIVE RankFrom(_, _, _, _)
RankFrom(A, S, n, free) ==
  IF S = {} \/ (~free /\ n = 0) THEN 0
  ELSE \* free: any number of particles below
    LET x == CHOOSE y \in S : \A z \in S : z <= y
        rest == S \ {x}
        c == Cardinality(rest)
    IN IF x \in A
       THEN (IF free THEN 2^c ELSE IF n > c THEN 0 ELSE ChooseNum(c, n)) + RankFrom(A, rest, n - 1, free)
       ELSE RankFrom(A, rest, n, free)
Rank(A, sp) == RankFrom(A, StatesOf(sp), sp[2], sp[2] < 0)
GoodSpec(sp) == /\ Len(sp[1]) > 0 /\ \A i \in 1..Len(sp[1]) : sp[1][i] >= 0
                /\ Cardinality(StatesOf(sp)) = Len(sp[1]) /\ sp[2] <= Len(sp[1])
DisjointSpecs(sps) == \A i, j \in 1..Len(sps) : i < j => StatesOf(sps[i]) \cap StatesOf(sps[j]) = {}
Valid(sps) == (\A i \in 1..Len(sps) : GoodSpec(sps[i])) /\ DisjointSpecs(sps)
=============================================================================
