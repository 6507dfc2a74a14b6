------------------------------- MODULE MCSpin -------------------------------
(* Exhaustive design run: every word of single-spin operators over NS spins.  *)
(* The product rule is compared with matrix multiplication, the su(2)         *)
(* relations and adjoints are checked after every word, and the Schwinger     *)
(* fermion form is compared on the one-fermion-per-site space. Every word is  *)
(* emitted for replay.                                                        *)
EXTENDS Spin, Fock, Json
CONSTANTS NS, MaxLen, EmitGen
VARIABLES word, mat
vars == <<word, mat>>
Ops == (0..(NS - 1)) \X STYPES
One(op) == SMat(<<op>>, DOne, NS)
OneTab == [op \in Ops |-> One(op)]
Init == word = <<>> /\ mat = MId(Pow2(NS))
Apply(op) == /\ Len(word) < MaxLen
             /\ word' = <<op>> \o word /\ mat' = MMul(OneTab[op], mat)
Next == \E op \in Ops : Apply(op)
Spec == Init /\ [][Next]_vars

ProductLaw == mat = SMat(word, DOne, NS)
AdjointLaw == MAdj(mat) = SMat(SDagOps(word), DOne, NS)
\* relations after the current word
W(tail) == SMat(tail \o word, DOne, NS)
I(m) == MScale(<<0, 1, 0>>, m)
Neg(m) == MScale(<<-1, 0, 0>>, m)
Su2 == Len(word) < MaxLen => \A i \in 0..(NS - 1) :
  /\ MAdd(W(<<<<i, "x">>, <<i, "y">>>>), Neg(W(<<<<i, "y">>, <<i, "x">>>>))) = I(W(<<<<i, "z">>>>))
  /\ MAdd(W(<<<<i, "y">>, <<i, "z">>>>), Neg(W(<<<<i, "z">>, <<i, "y">>>>))) = I(W(<<<<i, "x">>>>))
  /\ MAdd(W(<<<<i, "z">>, <<i, "x">>>>), Neg(W(<<<<i, "x">>, <<i, "z">>>>))) = I(W(<<<<i, "y">>>>))
  /\ MAdd(W(<<<<i, "x">>>>), I(W(<<<<i, "y">>>>))) = W(<<<<i, "p">>>>)
  /\ MAdd(W(<<<<i, "x">>>>), Neg(I(W(<<<<i, "y">>>>)))) = W(<<<<i, "m">>>>)
Commute == Len(word) < MaxLen => \A a, b \in Ops : a[1] # b[1] => W(<<a, b>>) = W(<<b, a>>)
DotLaw == Len(word) <= 1 => \A i, j \in 0..(NS - 1) :
  MMul(SDot(i, j, DOne, NS), mat)
   = MAdd(MAdd(W(<<<<i, "x">>, <<j, "x">>>>), W(<<<<i, "y">>, <<j, "y">>>>)), W(<<<<i, "z">>, <<j, "z">>>>))

(* Schwinger: site i up = mode 2i, down = mode 2i+1. *)
Bil(op) == LET u == 2 * op[1]
               d == 2 * op[1] + 1
               t(a, b, c) == <<<<<<a, CR>>, <<b, AN>>>>, c>>
           IN CASE op[2] = "x" -> <<t(u, d, Half), t(d, u, Half)>>
                [] op[2] = "y" -> <<t(u, d, <<0, -1, 1>>), t(d, u, <<0, 1, 1>>)>>
                [] op[2] = "z" -> <<t(u, u, Half), t(d, d, DNeg(Half))>>
                [] op[2] = "p" -> <<t(u, d, DOne)>>
                [] op[2] = "m" -> <<t(d, u, DOne)>>
RECURSIVE Expand(_)
Expand(w) == IF w = <<>> THEN <<<<<<>>, DOne>>>>
  ELSE LET h == Bil(Head(w))
           r == Expand(Tail(w))
       IN [n \in 1..(Len(h) * Len(r)) |->
             LET a == h[1 + (n - 1) \div Len(r)]
                 b == r[1 + ((n - 1) % Len(r))]
             IN <<a[1] \o b[1], DMul(a[2], b[2])>>]
OneEach == [r \in 1..Pow2(NS) |-> {2 * i + SBit(r - 1, i) : i \in 0..(NS - 1)}]
RECURSIVE SumTerms(_)
SumTerms(ts) == IF ts = <<>> THEN {}
  ELSE MAdd(Denote(Head(ts)[1], Head(ts)[2], OneEach, OneEach).m, SumTerms(Tail(ts)))
SchwingerLaw == Len(word) <= 2 => SumTerms(Expand(word)) = mat
Emit == EmitGen => PrintT("GEN " \o ToJson([g |-> "word", ops |-> word]))
=============================================================================
