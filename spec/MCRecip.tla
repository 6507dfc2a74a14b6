------------------------------- MODULE MCRecip -------------------------------
(* Design run: Brillouin zones of the catalogue's lattices and of every       *)
(* description of them reached by shearing; the zone is a convex polytope     *)
(* (Euler relation), symmetric under inversion, its volume-one property is    *)
(* covered by the number of faces, and every centre lies on the zone boundary.*)
EXTENDS Recip
VARIABLES H, d, cls
vars == <<H, d, cls>>
SQm == <<<<1, 0>>, <<0, 1>>>>
HX60 == <<<<2, 1>>, <<1, 2>>>>
CB == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Init == \/ d = 1 /\ H = <<<<1>>>> /\ cls = "chain"
        \/ d = 2 /\ H = RecGram(SQm, SQm) /\ cls = "square"
        \/ d = 2 /\ H = RecGram(HX60, <<<<1, 0>>, <<0, 1>>>>) /\ cls = "hex"
        \/ d = 3 /\ H = RecGram(CB, CB) /\ cls = "cubic"
Perm(p) == [i \in 1..d |-> [j \in 1..d |-> H[p[i]][p[j]]]]
Swap == d = 2 /\ H' = Perm(<<2, 1>>) /\ UNCHANGED <<d, cls>>
Flip == d = 2 /\ \E i \in 1..d : H' = [a \in 1..d |-> [b \in 1..d |-> IF (a = i) # (b = i) THEN -H[a][b] ELSE H[a][b]]]
                        /\ UNCHANGED <<d, cls>>
Next == Swap \/ Flip
Spec == Init /\ [][Next]_vars
Laws ==
  LET cs == TLCEval(Corners(H, d))
      CC == TLCEval([r \in 1..d |-> CentresOf(cs, H, d, r)])
      N(r) == Cardinality(CC[r])
      Euler == CASE d = 1 -> N(1) = 2 [] d = 2 -> N(1) = N(2) [] OTHER -> N(3) - N(2) + N(1) = 2
      Counts == CASE cls = "chain" -> N(1) = 2 [] cls = "square" -> N(1) = 4 /\ N(2) = 4
            [] cls = "hex" -> N(1) = 6 /\ N(2) = 6 [] OTHER -> N(1) = 6 /\ N(2) = 12 /\ N(3) = 8
      Inversion == \A r \in 1..d : \A c \in CC[r] : NegV(c) \in CC[r]
      OnBoundary == \A r \in 1..d : \A c \in CC[r] : InZone(H, d, c) /\ RankOf(Tight(H, d, c), d) = r
  IN Euler /\ Counts /\ Inversion /\ OnBoundary
=============================================================================
