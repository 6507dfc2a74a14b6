------------------------------- MODULE MCTerms -------------------------------
(* Exhaustive design run of the term algebra: every program of up to MaxLen   *)
(* constructor/algebra steps over a small universe. Invariants relate the     *)
(* algebra on terms to the algebra of matrices over the full Fock space.      *)
EXTENDS Terms, Json
CONSTANTS NSt, MaxLen, Coeffs, EmitGen
VARIABLES store, hist
vars == <<store, hist>>

MCCoeffs == {<<1, 3, 1>>, <<-2, 0, 0>>}
Sts == 1..NSt
St(i) == <<i, 0, 0>>
Pos == [s \in {St(i) : i \in Sts} |-> s[1] - 1]
Full == FullBasis(NSt)
D(o) == TermMat(o, Pos, Full, Full).m

Init == store = <<>> /\ hist = <<>>
Put(o, c) == /\ Len(hist) < MaxLen /\ store' = Append(store, o) /\ hist' = Append(hist, c)
NewAoC == \E i \in Sts, t \in {CR, AN} : Put(AocObj(St(i) \o <<t>>), [a |-> "AoC", st |-> i, ot |-> t])
NewNum == \E i \in Sts : Put(NumObj(St(i)), [a |-> "Num", st |-> i])
Mul == \E x, y \in 1..Len(store) :
         /\ Len(store[x].ops) + Len(store[y].ops) <= 4
         /\ Put(MulObj(store[x], store[y]), [a |-> "Mul", x |-> x, y |-> y])
ScaleL == \E x \in 1..Len(store), c \in Coeffs : Put(ScaleObj(store[x], c), [a |-> "ScaleL", x |-> x, c |-> c])
ScaleR == \E x \in 1..Len(store), c \in Coeffs : Put(ScaleObj(store[x], c), [a |-> "ScaleR", x |-> x, c |-> c])
Dag == \E x \in 1..Len(store) : Put(DagObj(store[x]), [a |-> "Dag", x |-> x])
\* the only action that changes an existing object
SetCo == \E x \in 1..Len(store), c \in Coeffs :
           /\ store[x].k = "term" /\ Len(hist) < MaxLen
           /\ store' = [store EXCEPT ![x].co = c]
           /\ hist' = Append(hist, [a |-> "SetCo", x |-> x, c |-> c])
Next == NewAoC \/ NewNum \/ Mul \/ ScaleL \/ ScaleR \/ Dag \/ SetCo
Spec == Init /\ [][Next]_vars

AdjLaw == \A i \in 1..Len(store) : D(DagObj(store[i])) = MAdj(D(store[i]))
MulLaw == \A i, j \in 1..Len(store) :
            Len(store[i].ops) + Len(store[j].ops) <= 4
            => D(MulObj(store[i], store[j])) = MMul(D(store[i]), D(store[j]))
ScaleLaw == \A i \in 1..Len(store), c \in Coeffs : D(ScaleObj(store[i], c)) = MScale(c, D(store[i]))
NumLaw == \A i \in 1..Len(store) : store[i].k = "num" => MMul(D(store[i]), D(store[i])) = D(store[i])
Frame == [][\A i \in 1..Len(store) : store'[i].ops = store[i].ops /\ store'[i].cls = store[i].cls /\ store'[i].k = store[i].k]_vars
Emit == (EmitGen /\ Len(hist) = MaxLen) => PrintT("GEN " \o ToJson([g |-> "prog", h |-> hist]))
=============================================================================
