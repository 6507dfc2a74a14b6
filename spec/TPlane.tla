-------------------------------- MODULE TPlane --------------------------------
(* Recorded line and polygon calls. Points are integer points of a frame; the *)
(* real coordinates are an affine image of them. d is an infinitesimal        *)
(* displacement of the query point.                                           *)
EXTENDS Plane, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
Abs(x) == IF x < 0 THEN -x ELSE x
T == Trace[s]
\* location of a point displaced infinitesimally by d
LocateD(a, b, q, d) ==
  LET e == (b[1] - a[1]) * d[2] - (b[2] - a[2]) * d[1]
  IN IF Area2(a, b, q) # 0 \/ e = 0 THEN Locate(a, b, q)
     ELSE IF Vertical(a, b) THEN IF d[1] < 0 THEN "LEFT" ELSE "RIGHT"
     ELSE IF e * Sgn(b[1] - a[1]) > 0 THEN "ABOVE" ELSE "BELOW"
\* env: <<"line", p0, p1>> or <<"poly", V>>
DoLine(ev) == ev.a = "Line" /\
  IF ev.p0 = ev.p1
  THEN UNCHANGED env /\ Report(s, k, C("duplicate-accepted", IsErr(ev, {"ValueError"})))
  ELSE /\ env' = <<"line", ev.p0, ev.p1>>
       /\ Report(s, k, IF ~IsVal(ev) THEN {"fails"}
            ELSE C("horizontal", ev.r.hor = Horizontal(ev.p0, ev.p1))
                 \cup C("vertical", ev.r.ver = Vertical(ev.p0, ev.p1)))
DoLoc(ev) == ev.a = "Loc" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"}
  ELSE C("location", ev.r.loc = LocateD(env[2], env[3], ev.q, ev.d)) \cup C("argument-changed", ev.r.same))
\* known and result in units of the frame; the result times 10^4
DoCoord(ev) == ev.a = "Coord" /\ UNCHANGED env /\ Report(s, k,
  IF ~Determined(env[2], env[3], ev.which)
  THEN C("undetermined-answered", IsErr(ev, {"RuntimeError"}))
  ELSE IF ~IsVal(ev) THEN {"fails"}
  ELSE LET f == OtherFraction(env[2], env[3], ev.known, ev.which)
       IN C("known-changed", ev.r.kept)
          \cup C("coordinate", Abs(ev.r.other * f[2] - 10000 * f[1]) <= 2 * Abs(f[2])))
\* ratios num/den; each point in 1/(100 den) of the frame
DoPoints(ev) == ev.a = "Points" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"}
  ELSE LET R == IF ev.def THEN [i \in 1..101 |-> i - 1] ELSE ev.num
           den == IF ev.def THEN 100 ELSE ev.den
           Pt(i, c) == (den * env[2][c] + R[i] * (env[3][c] - env[2][c]))
       IN IF Len(ev.r.pts) # Len(R) THEN {"number-of-points"}
          ELSE C("points", \A i \in 1..Len(R) : \A c \in 1..2 : ev.r.pts[i][c] = Pt(i, c) /\ ev.r.res[i][c] <= 2)
               \cup C("argument-changed", ev.r.same))
\* the printed equation: slope and intercept, or the constant, in 10^-4
DoStr(ev) == ev.a = "Str" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"}
  ELSE LET p == env[2]
           q == env[3]
           dx == q[1] - p[1]
           dy == q[2] - p[2]
       IN IF Horizontal(p, q) THEN C("equation", ev.r.kind = "y" /\ ev.r.c = <<10000 * p[2]>>)
          ELSE IF Vertical(p, q) THEN C("equation", ev.r.kind = "x" /\ ev.r.c = <<10000 * p[1]>>)
          ELSE C("equation", /\ ev.r.kind = "xy" /\ Len(ev.r.c) = 2
                    /\ Abs(ev.r.c[1] * dx - 10000 * dy) <= Abs(dx)
                    /\ Abs(ev.r.c[2] * dx - 10000 * (p[2] * dx - p[1] * dy)) <= Abs(dx)))
DoPoly(ev) == ev.a = "Poly" /\
  IF Cardinality(SetOf(ev.V)) # Len(ev.V)
  THEN UNCHANGED env /\ Report(s, k, C("duplicate-accepted", IsErr(ev, {"ValueError"})))
  ELSE /\ env' = <<"poly", ev.V>>
       /\ Report(s, k, C("driver-not-convex", Convex(ev.V)) \cup
            IF ~IsVal(ev) THEN {"fails"} ELSE C("vertices-num", ev.r.n = Len(ev.V)) \cup C("vertices", ev.r.V = ev.V))
DoVert(ev) == ev.a = "Vertices" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"} ELSE C("vertices", ev.r.V = env[2]))
DoIn(ev) == ev.a = "In" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"}
  ELSE C("driver-reference", Class(env[2], ev.ref) = "INSIDE")
       \cup C("class", ev.r.loc = ClassD(env[2], ev.q, ev.d)) \cup C("argument-changed", ev.r.same))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = <<>>
Next == /\ k <= Len(T.ev)
        /\ LET ev == T.ev[k] IN
             \/ DoLine(ev) \/ DoLoc(ev) \/ DoCoord(ev) \/ DoPoints(ev) \/ DoStr(ev)
             \/ DoPoly(ev) \/ DoVert(ev) \/ DoIn(ev)
             \/ (ev.a = "Abort" /\ UNCHANGED env /\ Report(s, k, {"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
