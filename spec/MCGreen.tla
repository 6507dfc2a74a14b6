------------------------------- MODULE MCGreen -------------------------------
(* Design run: every small Hermitian H, frequency, sign and pair of states.   *)
(* The fraction solves the linear system it stands for and obeys the          *)
(* reflection and time-order identities that distinguish the two signs.       *)
EXTENDS Green, Json
CONSTANTS Diag, Freq
VARIABLES H, p, q, e, sg, a, b
vars == <<H, p, q, e, sg, a, b>>
DiagC == {0, 1, -2}
FreqC == {0, 1, -2}
OffG == {<<0, 0>>, <<1, 0>>, <<1, -1>>}
VecG == {<<<<1, 0>>, <<0, 0>>>>, <<<<0, 1>>, <<1, 0>>>>, <<<<2, 0>>, <<-1, 1>>>>}
Init == /\ \E d1, d2 \in Diag, o \in OffG : H = <<<<<<d1, 0>>, o>>, <<ZCon(o), <<d2, 0>>>>>>
        /\ p \in Freq /\ q \in {1, -1} /\ e \in {0, -1} /\ sg = 1 /\ a \in VecG /\ b \in VecG
Switch == sg' = -sg /\ UNCHANGED <<H, p, q, e, a, b>>
Exchange == a' = b /\ b' = a /\ UNCHANGED <<H, p, q, e, sg>>
Next == Switch \/ Exchange
Spec == Init /\ [][Next]_vars
M == Res(H, p, q, 1, e, sg)
\* M x = b for x the vector of fractions with the common denominator det
Solves == \A i \in 1..2 :
   ZSum([j \in 1..2 |-> ZMul(M[i][j], ZDet(Replace(M, j, b)))], 2) = ZMul(ZDet(M), b[i])
Regular == ZDet(M) # Z0       \* off the real axis
\* <a|M(z)^-1|b>* = <b|M(z*)^-1|a>
Reflect == FEq(FCon(Element(H, p, q, 1, e, sg, a, b)), Element(H, p, -q, 1, e, sg, b, a))
\* z + (H-E) at z is minus z' - (H-E) at -z
Mirror == FEq(Element(H, p, q, 1, e, sg, a, b), FNeg(Element(H, -p, -q, 1, e, -sg, a, b)))
Emit == sg = 1 => PrintT("GEN " \o ToJson([g |-> "green", H |-> H, p |-> p, q |-> q, e |-> e, a |-> a, b |-> b]))
=============================================================================
