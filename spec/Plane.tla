-------------------------------- MODULE Plane --------------------------------
(* Lines and convex polygons of the integer plane (any common denominator     *)
(* cancels), decided by exact cross products.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* twice the signed area of the triangle a, b, q
Area2(a, b, q) == (b[1] - a[1]) * (q[2] - a[2]) - (b[2] - a[2]) * (q[1] - a[1])
Horizontal(p0, p1) == p0[2] = p1[2]
Vertical(p0, p1) == p0[1] = p1[1]
\* where the point lies: vertical lines have a left and a right, all others an above and a below
Locate(p0, p1, q) ==
  LET c == Area2(p0, p1, q)
  IN IF c = 0 THEN "ON"
     ELSE IF Vertical(p0, p1) THEN IF q[1] < p0[1] THEN "LEFT" ELSE "RIGHT"
     ELSE IF c * Sgn(p1[1] - p0[1]) > 0 THEN "ABOVE" ELSE "BELOW"
\* the other coordinate of the line's point, as a fraction <<num, den>>
OtherFraction(p0, p1, known, which) ==
  LET a == IF which = "x" THEN 1 ELSE 2
      b == 3 - a
  IN <<p0[b] * (p1[a] - p0[a]) + (p1[b] - p0[b]) * (known - p0[a]), p1[a] - p0[a]>>
Determined(p0, p1, which) == IF which = "x" THEN ~Vertical(p0, p1) ELSE ~Horizontal(p0, p1)

(* polygons: V is the sequence of vertices in boundary order *)
Nxt(V, i) == V[(i % Len(V)) + 1]
Turns(V) == {Sgn(Area2(V[i], Nxt(V, i), V[j])) : i \in 1..Len(V), j \in 1..Len(V)} \ {0}
Between(a, b, q) == /\ Area2(a, b, q) = 0
                    /\ (q[1] - a[1]) * (q[1] - b[1]) <= 0 /\ (q[2] - a[2]) * (q[2] - b[2]) <= 0
RECURSIVE Shoe(_, _)
Shoe(V, i) == IF i = 0 THEN 0 ELSE V[i][1] * Nxt(V, i)[2] - V[i][2] * Nxt(V, i)[1] + Shoe(V, i - 1)
\* weakly convex, in boundary order: no vertex beyond an edge, no vertex of a
\* neighbouring edge inside another edge, positive area
Convex(V) == /\ Len(V) >= 3 /\ Cardinality(Turns(V)) = 1 /\ Cardinality({V[i] : i \in 1..Len(V)}) = Len(V)
             /\ \A i, j \in 1..Len(V) : (V[j] # V[i] /\ V[j] # Nxt(V, i)) => ~Between(V[i], Nxt(V, i), V[j])
Class(V, q) ==
  IF \E i \in 1..Len(V) : V[i] = q THEN "CORNER"
  ELSE IF \E i \in 1..Len(V) : Between(V[i], Nxt(V, i), q) THEN "BOUNDARY"
  ELSE IF Cardinality({Sgn(Area2(V[i], Nxt(V, i), q)) : i \in 1..Len(V)}) = 1 THEN "INSIDE"
  ELSE "OUTSIDE"
\* the class of the point moved from q by an infinitesimal multiple of d
ClassD(V, q, d) ==
  IF d[1] = 0 /\ d[2] = 0 THEN Class(V, q)
  ELSE LET sg(i) == LET c == Area2(V[i], Nxt(V, i), q)
                        e == (Nxt(V, i)[1] - V[i][1]) * d[2] - (Nxt(V, i)[2] - V[i][2]) * d[1]
                    IN IF c # 0 THEN Sgn(c) ELSE Sgn(e)
           S == {sg(i) : i \in 1..Len(V)}
       IN IF Cardinality(S \ {0}) # 1 THEN "OUTSIDE" ELSE IF 0 \in S THEN "BOUNDARY" ELSE "INSIDE"
Scaled(V, m) == [i \in 1..Len(V) |-> <<m * V[i][1], m * V[i][2]>>]
Rev(V) == [i \in 1..Len(V) |-> V[Len(V) + 1 - i]]
RotL(V) == [i \in 1..Len(V) |-> Nxt(V, i)]
=============================================================================
