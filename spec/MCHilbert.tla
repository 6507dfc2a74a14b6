------------------------------ MODULE MCHilbert ------------------------------
(* The sector as the reachable set of a filling machine: subspaces are filled  *)
(* one state at a time. Checked against the declarative definition, together   *)
(* with the counting laws; every small specifier list is emitted.              *)
EXTENDS Hilbert, TLC, Json
CONSTANTS Modes, EmitGen
VARIABLES specs, i, todo, ket, left
vars == <<specs, i, todo, ket, left>>
RECURSIVE Asc(_)
Min2(S) == CHOOSE x \in S : \A y \in S : x <= y
Asc(S) == IF S = {} THEN <<>> ELSE <<Min2(S)>> \o Asc(S \ {Min2(S)})
One(S) == {<<Asc(S), n>> : n \in -1..Cardinality(S)}
AllSpecs == UNION {{<<a>> : a \in One(S)} : S \in SUBSET Modes \ {{}}}
            \cup UNION {{<<a, b>> : a \in One(S), b \in One(T)} : S \in SUBSET Modes \ {{}}, T \in SUBSET Modes \ {{}}}
Begin(sps, n) == i = n /\ todo = StatesOf(sps[n]) /\ left = sps[n][2]
Init == /\ specs \in {x \in AllSpecs : Valid(x)}
        /\ Begin(specs, 1) /\ ket = {}
Fill == \E x \in todo : /\ \A y \in todo : x <= y
          /\ todo' = todo \ {x} /\ UNCHANGED <<specs, i>>
          /\ \/ left # 0 /\ ket' = ket \cup {x} /\ left' = left - 1
             \/ (left < 0 \/ left <= Cardinality(todo) - 1) /\ ket' = ket /\ left' = left
NextSub == /\ todo = {} /\ left <= 0 /\ i < Len(specs)
           /\ i' = i + 1 /\ todo' = StatesOf(specs[i + 1]) /\ left' = specs[i + 1][2] /\ UNCHANGED <<specs, ket>>
Next == Fill \/ NextSub
Spec == Init /\ [][Next]_vars
Finished == i = Len(specs) /\ todo = {} /\ left <= 0
\* every filling ends in the sector
Sound == Finished => ket \in Sector(specs)
RECURSIVE Binom(_, _)
Binom(n, r) == IF r = 0 THEN 1 ELSE IF n < r THEN 0 ELSE (Binom(n - 1, r - 1) * n) \div r
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Cnt(sp) == IF sp[2] < 0 THEN P2(Len(sp[1])) ELSE Binom(Len(sp[1]), sp[2])
RECURSIVE Prod(_, _)
Prod(sps, n) == IF n > Len(sps) THEN 1 ELSE Cnt(sps[n]) * Prod(sps, n + 1)
Count == (i = 1 /\ todo = StatesOf(specs[1])) =>
  /\ Cardinality(Sector(specs)) = Prod(specs, 1)
  /\ \A S \in Sector(specs) : \A n \in 1..Len(specs) :
       specs[n][2] >= 0 => Cardinality(S \cap StatesOf(specs[n])) = specs[n][2]
  /\ SizeFrom(specs, 1) = Cardinality(Sector(specs))
  /\ \A S \in Sector(specs) : InSector(S, specs)
  /\ \A S \in SUBSET UNION {StatesOf(specs[n]) : n \in 1..Len(specs)} : InSector(S, specs) => S \in Sector(specs)
  /\ Len(specs) = 1 => \A S \in Sector(specs) : Rank(S, specs[1]) = Cardinality({T \in Sector(specs) : LtKet(T, S)})
  /\ \A S, T \in Sector(specs) : S = T \/ LtKet(S, T) \/ LtKet(T, S)
Emit == (EmitGen /\ i = 1 /\ ket = {} /\ todo = StatesOf(specs[1]) /\ left = specs[1][2])
        => PrintT("GEN " \o ToJson([g |-> "space", specs |-> specs]))
=============================================================================
