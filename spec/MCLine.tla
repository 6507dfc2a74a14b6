-------------------------------- MODULE MCLine --------------------------------
(* Design run: all lines through two grid points and all query points.        *)
EXTENDS Plane, Json
CONSTANT Grid
GridC == -2..2
VARIABLES a, b, q
vars == <<a, b, q>>
Pt == Grid \X Grid
Init == a = <<0, 0>> /\ b \in Pt \ {a} /\ q \in Pt
Shift == \E d \in {<<1, 0>>, <<0, 1>>} : LET S(p) == <<p[1] + d[1], p[2] + d[2]>> IN
           a[1] + a[2] < 2 /\ a' = S(a) /\ b' = S(b) /\ q' = S(q)
Exchange == a' = b /\ b' = a /\ UNCHANGED q
Mirror == a' = <<a[2], a[1]>> /\ b' = <<b[2], b[1]>> /\ q' = <<q[2], q[1]>>
Next == Shift \/ Exchange \/ Mirror
Spec == Init /\ [][Next]_vars
Swapped == Locate(a, b, q) = Locate(b, a, q)
\* above / below (left / right) compare the point with the line's point of the same abscissa (ordinate)
Ordinate == LET w == IF Vertical(a, b) THEN "y" ELSE "x"
                c == IF w = "x" THEN 1 ELSE 2
                f == OtherFraction(a, b, q[c], w)
                diff == Sgn(f[2]) * (q[3 - c] * f[2] - f[1])
            IN Locate(a, b, q) = IF diff = 0 THEN "ON"
                 ELSE IF w = "x" THEN IF diff > 0 THEN "ABOVE" ELSE "BELOW"
                 ELSE IF diff < 0 THEN "LEFT" ELSE "RIGHT"
Undetermined == \A w \in {"x", "y"} : Determined(a, b, w) <=> OtherFraction(a, b, 0, w)[2] # 0
Emit == a = <<0, 0>> => PrintT("GEN " \o ToJson([g |-> "line", a |-> a, b |-> b, q |-> q]))
=============================================================================
