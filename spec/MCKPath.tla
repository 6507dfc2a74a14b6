------------------------------- MODULE MCKPath -------------------------------
(* Design run: the sampler as a state machine, over all short anchor lists on *)
(* a small grid; the closed formulas for totals and anchor indices agree with *)
(* the walk, anchors are met in order and the spacing is uniform in a segment.*)
EXTENDS KPathSpec, Json
CONSTANTS Grid, MaxAnch, MaxNum
VARIABLES A, loop, m, seg, j, count, met
vars == <<A, loop, m, seg, j, count, met>>
Pts == {<<x, y>> : x \in Grid, y \in Grid}
Init == \E n \in 2..MaxAnch : /\ A \in [1..n -> Pts] /\ A[1] = <<0, 0>> /\ loop \in BOOLEAN /\ m \in 1..MaxNum
        /\ seg = 1 /\ j = 0 /\ count = 0 /\ met = <<>>
N == Nums(A, loop, m)
Step == /\ ~Degenerate(A, loop) /\ seg <= Segs(A, loop)
        /\ met' = IF j = 0 THEN Append(met, count) ELSE met
        /\ count' = count + 1
        /\ IF j + 1 < N[seg] THEN j' = j + 1 /\ seg' = seg ELSE j' = 0 /\ seg' = seg + 1
        /\ UNCHANGED <<A, loop, m>>
Close == /\ ~Degenerate(A, loop) /\ seg = Segs(A, loop) + 1 /\ j = 0
         /\ met' = Append(met, count) /\ count' = count + 1 /\ j' = 1 /\ UNCHANGED <<A, loop, m, seg>>
Next == Step \/ Close
Spec == Init /\ [][Next]_vars
AtEnd == j = 1 /\ seg = Segs(A, loop) + 1
IndexLaw == AtEnd => met = Indices(N) /\ count = Indices(N)[Segs(A, loop) + 1] + 1
MinLaw == ~Degenerate(A, loop) => \A g \in 1..Segs(A, loop) :
            N[g] >= m /\ (Seg2(A, loop)[g] = Shortest(Seg2(A, loop)) => N[g] = m)
Emit == (seg = 1 /\ j = 0 /\ count = 0) => PrintT("GEN " \o ToJson([g |-> "kpath", A |-> A, loop |-> loop, m |-> m]))
=============================================================================
