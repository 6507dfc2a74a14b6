------------------------------- MODULE MCFock -------------------------------
(* Exhaustive design run: every operator string over Modes up to MaxLen, on   *)
(* every initial ket. The sign rule of Fock is compared with an independent   *)
(* formulation (inversions of the sequence of creation operators on the       *)
(* vacuum), the canonical anticommutation relations are checked in every      *)
(* state, and every operator string is emitted for replay on the code.        *)
EXTENDS Fock, Json
CONSTANTS Modes, MaxLen, EmitGen
VARIABLES init, ket, slater, sg2, hist
vars == <<init, ket, slater, sg2, hist>>

Asc(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a < b => q[a] < q[b]
Inv(q) == Cardinality({p \in (1..Len(q)) \X (1..Len(q)) : p[1] < p[2] /\ q[p[1]] > q[p[2]]})
PosOf(q, i) == CHOOSE p \in 1..Len(q) : q[p] = i

Init == \E S \in SUBSET Modes :
          init = S /\ ket = Ket(S) /\ slater = Asc(S) /\ sg2 = 0 /\ hist = <<>>
Create(i) == /\ Len(hist) < MaxLen /\ (ket.ok \/ EmitGen)
             /\ ket' = Act(ket, <<i, CR>>) /\ hist' = <<<<i, CR>>>> \o hist
             /\ IF i \in ket.occ THEN slater' = <<>> /\ sg2' = 0
                ELSE slater' = <<i>> \o slater /\ sg2' = sg2
             /\ UNCHANGED init
Annihilate(i) == /\ Len(hist) < MaxLen /\ (ket.ok \/ EmitGen)
                 /\ ket' = Act(ket, <<i, AN>>) /\ hist' = <<<<i, AN>>>> \o hist
                 /\ IF i \notin ket.occ THEN slater' = <<>> /\ sg2' = 0
                    ELSE LET p == PosOf(slater, i) IN
                         /\ slater' = SubSeq(slater, 1, p - 1) \o SubSeq(slater, p + 1, Len(slater))
                         /\ sg2' = (sg2 + p - 1) % 2
                 /\ UNCHANGED init
Next == \E i \in Modes : Create(i) \/ Annihilate(i)
Spec == Init /\ [][Next]_vars

\* the two sign formulations agree
SignsAgree == ket.ok => /\ ket.occ = {slater[p] : p \in 1..Len(slater)}
                        /\ ket.sg = (sg2 + Inv(slater)) % 2
\* the string as a whole acts like its steps
StringAgrees == ActString(hist, Ket(init)) = ket
\* particle number changes by #creations - #annihilations
NumberLaw == ket.ok => Cardinality(ket.occ) = Cardinality(init)
               + Cardinality({p \in 1..Len(hist) : hist[p][2] = CR})
               - Cardinality({p \in 1..Len(hist) : hist[p][2] = AN})
\* canonical anticommutation relations on the current ket
Two(a, b) == Act(Act(ket, b), a)
Cancel(x, y) == (~x.ok /\ ~y.ok) \/ (x.ok /\ y.ok /\ x.occ = y.occ /\ x.sg # y.sg)
CAR == ket.ok => \A i, j \in Modes :
  /\ Cancel(Two(<<i, CR>>, <<j, CR>>), Two(<<j, CR>>, <<i, CR>>))
  /\ Cancel(Two(<<i, AN>>, <<j, AN>>), Two(<<j, AN>>, <<i, AN>>))
  /\ IF i # j THEN Cancel(Two(<<i, AN>>, <<j, CR>>), Two(<<j, CR>>, <<i, AN>>))
     ELSE LET x == Two(<<i, AN>>, <<i, CR>>)
              y == Two(<<i, CR>>, <<i, AN>>)
          IN (x.ok # y.ok) /\ (IF x.ok THEN x ELSE y) = ket

Emit == (EmitGen /\ init = Modes) => PrintT("GEN " \o ToJson([g |-> "string", ops |-> hist]))
=============================================================================
