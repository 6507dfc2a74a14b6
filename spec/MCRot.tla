-------------------------------- MODULE MCRot --------------------------------
(* Design run: the group generated by turning a body about every lattice      *)
(* direction by multiples of 15 degrees. The defining formula gives an        *)
(* orthogonal orientation-preserving matrix that fixes its axis, turns        *)
(* counterclockwise, adds up under composition and inverts by transposition;  *)
(* a turn about a turned axis is the conjugate turn.                          *)
EXTENDS Rot, Json
CONSTANT Steps
VARIABLES ax, d, e
vars == <<ax, d, e>>
Axes == {v \in (-1..1) \X (-1..1) \X (-1..1) : v # <<0, 0, 0>>}
Init == ax \in Axes /\ d = 0 /\ e \in Steps
Turn == d < 360 /\ d' = d + e /\ UNCHANGED <<ax, e>>
Next == Turn
Spec == Init /\ [][Next]_vars
C(x) == CS([k |-> "deg", d |-> x])
Tol == 14
Laws ==
  \E n \in {UnitVec(ax)} : \E R \in {Rodr(n, C(d))} : \E S \in {Rodr(n, C(e))} :
    /\ CloseM(MulM(R, Trn(R)), IdM, Tol)
    /\ DetF(R) - U <= Tol /\ U - DetF(R) <= Tol
    /\ CloseV(App(R, n), n, Tol)
    /\ CloseM(MulM(R, S), Rodr(n, C(d + e)), Tol)
    /\ CloseM(Trn(R), Rodr(n, C(-d)), Tol)
    /\ CloseM(Rodr([i \in 1..3 |-> -n[i]], C(d)), Trn(R), Tol)
    \* orientation: trace(cross(n) R) = -2 sin d
    /\ LET tr == FM(Cross(n, 1, 2), R[2][1]) + FM(Cross(n, 1, 3), R[3][1]) + FM(Cross(n, 2, 1), R[1][2])
                 + FM(Cross(n, 2, 3), R[3][2]) + FM(Cross(n, 3, 1), R[1][3]) + FM(Cross(n, 3, 2), R[2][3])
       IN tr + 2 * C(d)[2] <= 2 * Tol /\ -tr - 2 * C(d)[2] <= 2 * Tol
    \* z-y-z Euler turn of the z axis points along (alpha, beta)
    /\ CloseV(App(EulerM(C(d), C(e), C(30)), <<0, 0, U>>), Sph([k |-> "deg", d |-> d], [k |-> "deg", d |-> e]), Tol)
    \* turning about a direction is the conjugate of turning about z
    /\ CloseM(Rodr(Sph([k |-> "deg", d |-> d], [k |-> "deg", d |-> e]), C(75)),
              MulM(EulerM(C(d), C(e), C(75)), Trn(EulerM(C(d), C(e), C(0)))), Tol)
Emit == PrintT("GEN " \o ToJson([g |-> "rot", ax |-> ax, d |-> d, e |-> e]))
=============================================================================
