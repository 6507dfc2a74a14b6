-------------------------------- MODULE Ident --------------------------------
(* Identifiers as values. Coordinates are integers in units of 10^-6; an       *)
(* identifier keeps the key computed when it was created from the precision    *)
(* then configured (decimals kept, by truncation).                             *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Trunc(m, p) == LET d == Pow10(6 - p) IN IF m >= 0 THEN m \div d ELSE -((-m) \div d)
Key(ms, p) == [i \in 1..Len(ms) |-> Trunc(ms[i], p)]

\* lexicographic; a proper prefix comes first
Lex(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
             IN \/ \E i \in 1..n : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
                \/ Len(a) < Len(b) /\ \A j \in 1..n : a[j] = b[j]
OtypeRank(o) == CASE o = "m" -> 1 [] o = "p" -> 2 [] o = "x" -> 3 [] o = "y" -> 4 [] o = "z" -> 5

\* kinds: site, state, aoc, num, spin; key = coordinates, q = further numbers
\* (state/num: spin, orbit; aoc: otype, spin, orbit; spin: rank of otype)
SiteI(ms, p) == [kind |-> "site", key |-> Key(ms, p), q |-> <<>>]
StateI(ms, sp, ob, p) == [kind |-> "state", key |-> Key(ms, p), q |-> <<sp, ob>>]
AocI(ot, ms, sp, ob, p) == [kind |-> "aoc", key |-> Key(ms, p), q |-> <<ot, sp, ob>>]
NumI(ms, sp, ob, p) == [kind |-> "num", key |-> Key(ms, p), q |-> <<sp, ob>>]
SpinI(o, ms, p) == [kind |-> "spin", key |-> Key(ms, p), q |-> <<OtypeRank(o)>>]

EqI(a, b) == a = b
StKeyLt(ka, qa, kb, qb) == Lex(ka, kb) \/ (ka = kb /\ Lex(qa, qb))
LtI(a, b) ==
  CASE a.kind = "site" -> Lex(a.key, b.key)
    [] a.kind \in {"state", "num"} -> StKeyLt(a.key, a.q, b.key, b.q)
    [] a.kind = "aoc" -> LET qa == <<a.q[2], a.q[3]>>
                             qb == <<b.q[2], b.q[3]>>
                         IN IF a.q[1] # b.q[1] THEN a.q[1] > b.q[1]
                            ELSE IF a.q[1] = 1 THEN StKeyLt(a.key, qa, b.key, qb)
                            ELSE StKeyLt(b.key, qb, a.key, qa)
    [] a.kind = "spin" -> a.q[1] < b.q[1] \/ (a.q = b.q /\ Lex(a.key, b.key))
Comparable(a, b) == a.kind = b.kind

\* bonds
BondI(m0, m1, dir, p) == [p0 |-> Key(m0, p), p1 |-> Key(m1, p), dir |-> dir]
EqB(a, b) == /\ a.dir = b.dir /\ Len(a.p0) = Len(b.p0)
             /\ \/ a.p0 = b.p0 /\ a.p1 = b.p1
                \/ ~a.dir /\ a.p0 = b.p1 /\ a.p1 = b.p0
=============================================================================
