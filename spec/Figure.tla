------------------------------- MODULE Figure -------------------------------
(* What the drawing functions put on the canvas: markers, line segments and   *)
(* texts at exact places. Lattice pictures live on the integer frame of the   *)
(* lattice; reciprocal-space pictures on the coefficients of the reciprocal   *)
(* vectors (n for a marker, twice the midpoint and the half difference for a  *)
(* perpendicular bisector).                                                   *)
EXTENDS Lattice
Steps(scope, k) == Tuples([i \in 1..k |-> scope])
\* all sites of the clusters within the scope, each once
Shown(L, scope) == {VAdd(L.P[i], Translate(L, n)) : i \in 1..Len(L.P), n \in Steps(scope, L.k)}
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
ShownCount(L, scope) == Len(L.P) * Power(2 * scope + 1, L.k)

(* the common 2D lattices in units of 1/4 and 1/4 (square) or sqrt(3)/12      *)
CommonName(w) == CASE w \in {"s", "square"} -> "square" [] w \in {"t", "triangle"} -> "triangle"
  [] w \in {"h", "honeycomb"} -> "honeycomb" [] w \in {"k", "kagome"} -> "kagome" [] OTHER -> "none"
CommonCell(c) == CASE c = "honeycomb" -> <<<<0, 0>>, <<0, 4>>>> [] c = "kagome" -> <<<<0, 0>>, <<1, 3>>, <<2, 0>>>> [] OTHER -> <<<<0, 0>>>>
CommonVec(c) == IF c = "square" THEN <<<<4, 0>>, <<0, 4>>>> ELSE <<<<4, 0>>, <<2, 6>>>>
CommonG(c) == IF c = "square" THEN <<<<1, 0>>, <<0, 1>>>> ELSE <<<<3, 0>>, <<0, 1>>>>
Patch(c, n0, n1) == {VAdd(CommonCell(c)[i], <<a * CommonVec(c)[1][1] + b * CommonVec(c)[2][1],
                                             a * CommonVec(c)[1][2] + b * CommonVec(c)[2][2]>>) :
                      i \in 1..Len(CommonCell(c)), a \in (-n0)..n0, b \in (-n1)..n1}
\* unordered pairs at the smallest distance
Links(c, S) ==
  LET D == {Q(CommonG(c), VSub(x, y)) : x \in S, y \in S} \ {0}
      m == MinSet(D)
  IN {{x, y} : <<x, y>> \in {p \in S \X S : Q(CommonG(c), VSub(p[1], p[2])) = m}}
\* the same for large patches: the displacements between nearest neighbours of the middle cells are those of all
Neighbours(c) == LET S == Patch(c, 1, 1)
                     D == {VSub(x, CommonCell(c)[i]) : x \in S, i \in 1..Len(CommonCell(c))} \ {<<0, 0>>}
                     m == MinSet({Q(CommonG(c), d) : d \in D})
                 IN {d \in D : Q(CommonG(c), d) = m}
NearLinks(c, S) == LET N == TLCEval(Neighbours(c)) IN {{x, VAdd(x, d)} : <<x, d>> \in {p \in S \X N : VAdd(p[1], p[2]) \in S}}
PatchLinks(c, n0, n1) == LET S == TLCEval(Patch(c, n0, n1)) IN IF n0 > 0 /\ n1 > 0 THEN NearLinks(c, S) ELSE Links(c, S)

(* first Brillouin zone picture of the vectors with Gram matrix G (2D)        *)
BZPoints == {<<a, b>> : a \in -1..1, b \in -1..1}
\* half difference of the bisector of n, on the coefficients of the b_i, times sqrt(det G): a rotation by 90 degrees
Turned(G, n) == <<n[1] * G[1][2] - n[2] * G[1][1], n[1] * G[2][2] - n[2] * G[1][2]>>
=============================================================================
