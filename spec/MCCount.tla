------------------------------- MODULE MCCount -------------------------------
(* Design run: Pascal's triangle row by row by addition alone, for subsets    *)
(* and multisets, against the closed forms and against enumeration.           *)
EXTENDS Count, TLC, Json
CONSTANTS MaxN, MaxEnum
VARIABLES n, row, k
vars == <<n, row, k>>
Init == n = 0 /\ row = <<One>> /\ k = 0
NextRow == /\ n < MaxN /\ k = n /\ n' = n + 1 /\ k' = 0
           /\ row' = [i \in 1..(n + 2) |-> IF i = 1 \/ i = n + 2 THEN One ELSE AddN(row[i - 1], row[i])]
NextK == k < n /\ k' = k + 1 /\ UNCHANGED <<n, row>>
Next == NextRow \/ NextK
Spec == Init /\ [][Next]_vars
Pascal == CountOf("C", n, k, FALSE) = row[k + 1]
Symmetric == CountOf("C", n, k, FALSE) = CountOf("C", n, n - k, FALSE)
Exact == k > 0 => DivS(MulS(CombN(n, k - 1), n - k + 1), k)[2] = 0
\* k! orders for each choice
RECURSIVE TimesFact(_, _)
TimesFact(A, j) == IF j = 0 THEN A ELSE TimesFact(MulS(A, j), j - 1)
Orders == CountOf("P", n, k, FALSE) = TimesFact(CountOf("C", n, k, FALSE), k)
\* multisets: either no n-th item, or one of it is taken away
Multi == (n >= 1 /\ k >= 1) => CountOf("C", n, k, TRUE) =
           AddN(IF n = 1 THEN Zero ELSE CombN(n + k - 2, k), CountOf("C", n, k - 1, TRUE))
Enumerated == n <= MaxEnum => \A rep \in BOOLEAN :
   /\ CountOf("P", n, k, rep) = OfInt(Cardinality(Ordered(n, k, rep)))
   /\ CountOf("C", n, k, rep) = OfInt(Cardinality(Unordered(n, k, rep)))
Emit == PrintT("GEN " \o ToJson([g |-> "count", n |-> n, k |-> k]))
=============================================================================
