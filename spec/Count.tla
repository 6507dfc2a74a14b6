-------------------------------- MODULE Count --------------------------------
(* Numbers of ordered and unordered selections of k out of n items.           *)
EXTENDS BigNat, FiniteSets
One == <<1>>
RECURSIVE PermN(_, _), Power(_, _), CombN(_, _)
\* ordered, without repetition: the last of k items has n-k+1 candidates left
PermN(n, k) == IF k = 0 THEN One ELSE MulS(PermN(n, k - 1), n - k + 1)
\* ordered, with repetition
Power(n, k) == IF k = 0 THEN One ELSE MulS(Power(n, k - 1), n)
\* unordered: every division is exact
CombN(n, k) == IF k = 0 THEN One ELSE DivS(MulS(CombN(n, k - 1), n - k + 1), k)[1]
CountOf(fn, n, k, rep) ==
  IF fn = "P" THEN IF rep THEN Power(n, k) ELSE PermN(n, k)
  ELSE IF ~rep THEN CombN(n, k)
  ELSE IF k = 0 THEN One ELSE CombN(n + k - 1, k)
InRange(n, k) == n >= 0 /\ k >= 0 /\ k <= n
\* the selections themselves
Items(n) == 1..n
Ordered(n, k, rep) == {f \in [1..k -> Items(n)] : rep \/ \A i, j \in 1..k : i # j => f[i] # f[j]}
Unordered(n, k, rep) == {f \in Ordered(n, k, rep) : \A i, j \in 1..k : i < j => f[i] <= f[j]}
=============================================================================
