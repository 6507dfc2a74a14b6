------------------------------ MODULE MCLattice ------------------------------
(* Exhaustive design run: one infinite lattice described by many clusters.    *)
(* The actions change the description only (shear the translations, move a    *)
(* cluster point by a translation, double the cluster), so the distances, the *)
(* bonds per site and the decompositions must not change. Every cluster       *)
(* reached is emitted for replay.                                             *)
EXTENDS Lattice, Json
CONSTANTS Big, MaxPts, MaxStep, EmitGen
VARIABLES G, P, V, d0, c0, step
vars == <<G, P, V, d0, c0, step>>
SQ == <<<<1, 0>>, <<0, 1>>>>
HX == <<<<2, 1>>, <<1, 2>>>>
L == Make(2, G, P, V)
Dists(l) == FirstDists(l, 4)
Count(l, n) == Cardinality(Classes(l, n, TRUE))
CountAt(l, d2) == Cardinality(ClassesIn(l, d2 - 1, d2, BoxBound(l, d2)))
Counts(l) == [n \in 1..2 |-> Count(l, n)]
Seeds == { <<SQ, <<<<0, 0>>>>, <<<<1, 0>>, <<0, 1>>>>>>,
           <<SQ, <<<<0, 0>>, <<1, 0>>>>, <<<<3, 0>>, <<0, 2>>>>>>,
           <<HX, <<<<0, 0>>>>, <<<<1, 0>>, <<0, 1>>>>>>,
           <<HX, <<<<0, 0>>, <<1, 1>>>>, <<<<3, 0>>, <<0, 3>>>>>>,
           <<HX, <<<<0, 0>>, <<1, 0>>, <<0, 1>>>>, <<<<2, 0>>, <<0, 2>>>>>>,
           <<SQ, <<<<0, 0>>, <<1, 0>>>>, <<<<0, 2>>>>>>,
           <<HX, <<<<0, 0>>>>, <<<<1, 1>>>>>> }
Init == \E sd \in Seeds : /\ G = sd[1] /\ P = sd[2] /\ V = sd[3] /\ step = 0
                          /\ LET l == Make(2, sd[1], sd[2], sd[3]) IN
                             d0 = Dists(l) /\ c0 = [n \in 1..2 |-> <<Count(l, n), Len(sd[2])>>]
Small(v) == \A i \in 1..Len(v) : Abs(v[i]) <= Big
Keep == UNCHANGED <<G, d0, c0>> /\ step' = step + 1 /\ step < MaxStep
Shear == \E i, j \in 1..Len(V), s \in {-1, 1} :
           /\ i # j /\ Small([x \in 1..2 |-> V[i][x] + s * V[j][x]])
           /\ V' = [V EXCEPT ![i] = [x \in 1..2 |-> V[i][x] + s * V[j][x]]]
           /\ UNCHANGED P /\ Keep
MovePt == \E i \in 1..Len(P), j \in 1..Len(V) :
            /\ Small(VAdd(P[i], V[j])) /\ P' = [P EXCEPT ![i] = VAdd(P[i], V[j])]
            /\ UNCHANGED V /\ Keep
Double == \E i \in 1..Len(V) :
            /\ 2 * Len(P) <= MaxPts /\ Small([x \in 1..2 |-> 2 * V[i][x]])
            /\ P' = P \o [p \in 1..Len(P) |-> VAdd(P[p], V[i])]
            /\ V' = [V EXCEPT ![i] = [x \in 1..2 |-> 2 * V[i][x]]]
            /\ Keep
Next == Shear \/ MovePt \/ Double
Spec == Init /\ [][Next]_vars
ViewD == <<G, P, V>>

UniquePoints(l) == Inequivalent(l)
SameDistances(l) == Dists(l) = d0 /\ NthD2(l, 2) = d0[2]
SameCoordination(l) == \A n \in 1..2 : CountAt(l, d0[n]) * c0[n][2] = c0[n][1] * Len(P)
\* the box really is large enough
BoxComplete(l) == LET R2 == d0[2]
                      B == BoxBound(l, R2)
                  IN ClassesIn(l, 0, R2, B) = ClassesIn(l, 0, R2, [i \in 1..Len(B) |-> B[i] + 2])
\* decomposition is unique and inverse to translation
Unique(l) == \A n \in Tuples([i \in 1..Len(V) |-> 1]), i \in 1..Len(P) :
            LET x == VAdd(P[i], Translate(l, n)) IN
            Decompositions(l, x) = {i} /\ TransOf(l, VSub(x, P[i])) = n
Laws == LET l == L IN /\ Assert(UniquePoints(l), "UniquePoints") /\ Assert(SameDistances(l), "SameDistances")
                      /\ Assert(SameCoordination(l), "SameCoordination") /\ Assert(BoxComplete(l), "BoxComplete")
                      /\ Assert(Unique(l), "Unique")
Emit == EmitGen => PrintT("GEN " \o ToJson([g |-> "cluster", G |-> G, P |-> P, V |-> V]))
=============================================================================
