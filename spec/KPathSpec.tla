------------------------------ MODULE KPathSpec ------------------------------
(* The walk along a list of integer anchors: at segment g the sampler emits   *)
(* Num(g) points start + (j / Num) * displacement, j = 0..Num-1, then the     *)
(* next segment; the last anchor closes the path.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
KLen2(a, b) == LET f == [i \in 1..Len(a) |-> (b[i] - a[i]) * (b[i] - a[i])] IN
  IF Len(a) = 2 THEN f[1] + f[2] ELSE f[1] + f[2] + f[3]
Stops(A, loop) == IF loop THEN Append(A, A[1]) ELSE A
Segs(A, loop) == Len(Stops(A, loop)) - 1
Seg2(A, loop) == LET S == Stops(A, loop) IN [g \in 1..Segs(A, loop) |-> KLen2(S[g], S[g + 1])]
Degenerate(A, loop) == \E g \in 1..Segs(A, loop) : Seg2(A, loop)[g] = 0
Shortest(q) == CHOOSE x \in {q[g] : g \in 1..Len(q)} : \A g \in 1..Len(q) : x <= q[g]
\* floor(m * sqrt(l / s)) = largest t with t*t*s <= m*m*l
RECURSIVE FloorFrom(_, _, _, _)
FloorFrom(m, l, s, t) == IF (t + 1) * (t + 1) * s <= m * m * l THEN FloorFrom(m, l, s, t + 1) ELSE t
Nums(A, loop, m) == LET q == Seg2(A, loop)
                        s == Shortest(q)
                    IN TLCEval([g \in 1..Len(q) |-> FloorFrom(m, q[g], s, m)])
RECURSIVE Starts(_, _)
Starts(N, g) == IF g = 1 THEN 0 ELSE Starts(N, g - 1) + N[g - 1]
Indices(N) == TLCEval([g \in 1..(Len(N) + 1) |-> Starts(N, g)])
=============================================================================
