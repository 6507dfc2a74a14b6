-------------------------------- MODULE BigNat --------------------------------
(* Natural numbers of any size: sequences of base-1000 digits, least          *)
(* significant first, without leading zeros.                                  *)
EXTENDS Integers, Sequences, SequencesExt
Base == 1000
Zero == <<>>
RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o OfInt(n \div Base)
Digit(A, i) == IF i <= Len(A) THEN A[i] ELSE 0
\* carry is below the multiplier, so it has at most a few digits
MulS(A, m) ==
  IF m = 0 THEN Zero ELSE
  LET step(acc, d) == <<(acc[1] + d * m) \div Base, Append(acc[2], (acc[1] + d * m) % Base)>>
      r == FoldLeft(step, <<0, <<>>>>, A)
  IN r[2] \o OfInt(r[1])
AddN(A, B) ==
  LET n == IF Len(A) > Len(B) THEN Len(A) ELSE Len(B)
      step(acc, i) == LET v == acc[1] + Digit(A, i) + Digit(B, i) IN <<v \div Base, Append(acc[2], v % Base)>>
      r == FoldLeft(step, <<0, <<>>>>, [i \in 1..n |-> i])
  IN r[2] \o OfInt(r[1])
RECURSIVE Strip(_)
Strip(A) == IF A = <<>> THEN A ELSE IF A[Len(A)] # 0 THEN A ELSE Strip(SubSeq(A, 1, Len(A) - 1))
\* quotient and remainder by a small number
DivS(A, m) ==
  LET n == Len(A)
      step(acc, i) == LET v == acc[1] * Base + A[n + 1 - i] IN <<v % m, <<v \div m>> \o acc[2]>>
      r == FoldLeft(step, <<0, <<>>>>, [i \in 1..n |-> i])
  IN <<Strip(r[2]), r[1]>>
=============================================================================
