------------------------------- MODULE MCPath -------------------------------
(* Design run: paths grown place by place in every order of basis states; the *)
(* closed form of their projections agrees with the general definition.       *)
EXTENDS Krylov
CONSTANTS N, A, B, F
VARIABLE P
vars == <<P>>
Init == \E a \in A, f \in F : P = [a |-> <<a>>, b |-> <<>>, f |-> <<f>>, pos |-> <<1>>]
\* the new last place takes basis state r; the states from r on move up
Grow == /\ Len(P.a) < N
        /\ \E a \in A, b \in B, f \in F, r \in 1..(Len(P.a) + 1) :
             P' = [a |-> Append(P.a, a), b |-> Append(P.b, b), f |-> Append(P.f, f),
                   pos |-> Append([i \in 1..Len(P.pos) |-> IF P.pos[i] >= r THEN P.pos[i] + 1 ELSE P.pos[i]], r)]
Next == Grow
Spec == Init /\ [][Next]_vars
n == Len(P.a)
Start(p, g) == [r \in 1..n |-> IF r = P.pos[p] THEN Phase(g) ELSE Z0]
U == [r \in 1..n |-> <<r, 2 - r>>]
RECURSIVE TPow(_, _)
TPow(p, q) ==  \* first column of the q-th power of the projected matrix
  LET m == PathReach(P, p) IN
  IF q = 0 THEN [j \in 1..m |-> IF j = 1 THEN 1 ELSE 0]
  ELSE LET c == TPow(p, q - 1) IN
       TLCEval([j \in 1..m |-> PathDiag(P, p, j) * c[j] + (IF j > 1 THEN PathOff(P, p, j - 1) * c[j - 1] ELSE 0)
                                + (IF j < m THEN PathOff(P, p, j) * c[j + 1] ELSE 0)])
Laws == \A p \in {x \in 1..n : PathStart(P, x)} :
  \E M \in {PathMat(P)} :
    /\ Hermitian(M)
    /\ KrylovRank(M, Start(p, 0)) = PathReach(P, p)
    /\ \A g \in {0, 1}, q \in 0..N :
         \E c \in {TPow(p, q)} :
         Moment(M, U, Start(p, g), q) =
           ZSum([j \in 1..PathReach(P, p) |-> ZS(c[j], ZCon(PathProj(P, p, g, j, U)))], PathReach(P, p))
=============================================================================
