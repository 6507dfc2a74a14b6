-------------------------------- MODULE MCPoly --------------------------------
(* Design run: convex polygons grown vertex by vertex on a grid, in both      *)
(* orientations and from every start vertex; Pick's theorem ties the counts   *)
(* of inside and boundary points to the area.                                 *)
EXTENDS Plane, Json
CONSTANTS Grid, MaxV
VARIABLES V, closed
vars == <<V, closed>>
Pt == Grid \X Grid
Extends(W) == \A i \in 1..(Len(W) - 1) : W[i] # W[Len(W)]
\* a convex chain so far: all turns one way (or straight)
Chain(W) == Cardinality({Sgn(Area2(W[i], W[i + 1], W[j])) : i \in 1..(Len(W) - 1), j \in 1..Len(W)} \ {0}) <= 1
Init == V \in {<<p>> : p \in {x \in Pt : x[1] = 0 /\ x[2] <= 1}} /\ closed = FALSE
Grow == ~closed /\ Len(V) < MaxV /\ \E p \in Pt : LET W == Append(V, p) IN Extends(W) /\ Chain(W) /\ V' = W /\ UNCHANGED closed
Close == ~closed /\ Convex(V) /\ closed' = TRUE /\ UNCHANGED V
Next == Grow \/ Close
Spec == Init /\ [][Next]_vars
Abs(x) == IF x < 0 THEN -x ELSE x
Num(cs) == Cardinality({q \in Pt : Class(V, q) \in cs})
Pick == closed => Abs(Shoe(V, Len(V))) = 2 * Num({"INSIDE"}) + Num({"CORNER", "BOUNDARY"}) - 2
Start == closed => \A q \in Pt : Class(V, q) = Class(RotL(V), q) /\ Class(V, q) = Class(Rev(V), q)
\* an infinitesimal step is a unit step of a much finer grid
Small == closed => \A q \in Pt : \A d \in {<<1, 0>>, <<-1, 1>>, <<1, 2>>, <<0, -1>>} :
   ClassD(V, q, d) = Class(Scaled(V, 20), <<20 * q[1] + d[1], 20 * q[2] + d[2]>>)
Emit == closed => PrintT("GEN " \o ToJson([g |-> "poly", V |-> V]))
=============================================================================
