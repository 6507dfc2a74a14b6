------------------------------ MODULE TFigure ------------------------------
(* Recorded figures. env holds the lattice (header lat), the files written so *)
(* far below the working directory and the last untrimmed window of each      *)
(* drawn patch. Every shot (shown or saved canvas) lists markers, segments    *)
(* and texts on the integer frame of its kind.                                *)
EXTENDS Figure, Recip, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
H == Trace[s].lat
Cross(a, b, q) == (b[1] - a[1]) * (q[2] - a[2]) - (b[2] - a[2]) * (q[1] - a[1])
Near(x, y, tol) == Abs(x - y) <= tol
NoDup(q) == Cardinality(SetOf(q)) = Len(q)
Shots(ev, P(_)) == \A i \in 1..Len(ev.r.shots) : P(ev.r.shots[i])
\* shown unless saved, saved in exactly the named file below the working directory
How(ev, n) == [i \in 1..Len(ev.r.shots) |-> ev.r.shots[i].how] = n
Files(ev, new) == SetOf(ev.r.files) = env.files \cup new
Keep(new) == env' = [env EXCEPT !.files = @ \cup new]

(* Lattice.show *)
Label(ev) == ev.name \o ",scope=" \o ToString(ev.scope)
Square(t) == /\ Near(t.win[2] - t.win[1], t.win[4] - t.win[3], 3)
             /\ t.win[1] <= t.ext[1] + 1 /\ t.ext[2] <= t.win[2] + 1 /\ t.win[3] <= t.ext[3] + 1 /\ t.ext[4] <= t.win[4] + 1
LatBad(ev) ==
  IF env.L.d >= 3 THEN C("three-dimensional", IsErr(ev, {"RuntimeError"}) /\ SetOf(ev.files) = env.files)
  ELSE IF ~IsVal(ev) THEN {"fails"}
  ELSE LET want == TLCEval(Shown(env.L, ev.scope)) IN
       C("shown-or-saved", How(ev, IF ev.save THEN <<"save">> ELSE <<"show">>))
       \cup C("file", Files(ev, IF ev.save THEN {Label(ev) \o ".png"} ELSE {}) /\ (ev.save => ev.r.said))
       \cup C("sites", Shots(ev, LAMBDA t : SetOf(t.pts) = want))
       \cup C("site-count", Shots(ev, LAMBDA t : Len(t.pts) = ShownCount(env.L, ev.scope)))
       \cup C("nothing-else", Shots(ev, LAMBDA t : t.segs = 0 /\ t.texts = 0))
       \cup C("title", Shots(ev, LAMBDA t : t.title = Label(ev)))
       \cup C("axes", Shots(ev, LAMBDA t : t.equal /\ ~t.axes))
       \cup C("window", Shots(ev, Square))
       \cup C("lattice-kept", ev.r.kept)
DoLat(ev) == /\ ev.a = "LatShow"
             /\ Report(s, k, LatBad(ev))
             /\ Keep(IF ev.save /\ env.L.d < 3 THEN {Label(ev) \o ".png"} ELSE {})

(* Draw2DLattice.show *)
DrawFile(ev) == IF ev.name # "" THEN ev.name ELSE CommonName(ev.which) \o ".pdf"
DrawPath(ev) == IF ev.dir = "" THEN DrawFile(ev) ELSE ev.dir \o "/" \o DrawFile(ev)
Halves(t, w) == \A i \in 1..4 : Near(2 * t.win[i], w[i], 3)
DrawBad(ev) ==
  LET c == CommonName(ev.which)
      key == <<c, ev.n0, ev.n1>>
  IN IF c = "none" THEN C("unknown-lattice", IsErr(ev, {"KeyError"}) /\ SetOf(ev.files) = env.files)
     ELSE IF ~IsVal(ev) THEN {"fails"}
     ELSE LET S == TLCEval(Patch(c, ev.n0, ev.n1))
              E == TLCEval(IF ev.link THEN PatchLinks(c, ev.n0, ev.n1) ELSE {})
          IN C("shown-and-saved", ev.r.nshow = 1 /\ ev.r.nsave = (IF ev.save THEN 1 ELSE 0))
             \cup C("file", Files(ev, IF ev.save THEN {DrawPath(ev)} ELSE {}))
             \cup C("sites", Shots(ev, LAMBDA t : SetOf(t.pts) = S /\ Len(t.pts) = Cardinality(S)))
             \cup C("links", Shots(ev, LAMBDA t : {SetOf(t.segs[i]) : i \in 1..Len(t.segs)} = E /\ Len(t.segs) = Cardinality(E)))
             \cup C("marker-style", Shots(ev, LAMBDA t : SetOf(t.mst) = {<<ev.mc, ev.ms>>}))
             \cup C("line-style", Shots(ev, LAMBDA t : SetOf(t.lst) = IF E = {} THEN {} ELSE {<<ev.lc, ev.lw, ev.ls>>}))
             \cup C("axes", Shots(ev, LAMBDA t : t.equal /\ ~t.axes))
             \cup C("window", Shots(ev, LAMBDA t :
                    IF ~ev.trim THEN t.win[1] <= t.ext[1] + 1 /\ t.ext[2] <= t.win[2] + 1 /\ t.win[3] <= t.ext[3] + 1 /\ t.ext[4] <= t.win[4] + 1
                    ELSE key \in DOMAIN env.win => Halves(t, env.win[key])))
             \cup C("closed", ev.r.open = 0)
DoDraw(ev) ==
  /\ ev.a = "Draw" /\ Report(s, k, DrawBad(ev))
  /\ LET key == <<CommonName(ev.which), ev.n0, ev.n1>>
     IN IF key[1] = "none" \/ ~IsVal(ev) THEN UNCHANGED env
        ELSE env' = [env EXCEPT !.files = @ \cup (IF ev.save THEN {DrawPath(ev)} ELSE {}),
                       !.win = IF ~ev.trim /\ Len(ev.r.shots) > 0 THEN (key :> ev.r.shots[1].win) @@ @ ELSE @]

(* first Brillouin zones: markers n, texts "(a, b)" there, bisectors         *)
(* <<twice the midpoint, 4 * half difference * sqrt(det) in 1/1000>>          *)
Pair(n) == "(" \o ToString(n[1]) \o ", " \o ToString(n[2]) \o ")"
Bisector(sg, G, sc4) ==
  LET n == sg[1]
      t == Turned(G, n)
      ok(e) == \A i \in 1..2 : Near(sg[2][i], e * sc4 * 1000 * t[i], 40)
  IN n \in BZPoints \ {<<0, 0>>} /\ (ok(1) \/ ok(-1))
BZPart(t, G, sc4) ==
  C("bisectors", {t.segs[i][1] : i \in 1..Len(t.segs)} = BZPoints \ {<<0, 0>>} /\ Len(t.segs) = 8
                 /\ \A i \in 1..Len(t.segs) : Bisector(t.segs[i], G, sc4))
  \cup C("axes", t.equal /\ ~t.axes)
DoBZ(ev) == ev.a = "BZ" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"} ELSE
  C("shown", How(ev, <<"show">>)) \cup C("vectors-kept", ev.r.kept)
  \cup UNION {LET t == ev.r.shots[i] IN
      C("points", SetOf(t.pts) = BZPoints /\ Len(t.pts) = 9)
      \cup C("labels", SetOf(t.texts) = {<<Pair(n), n>> : n \in BZPoints} /\ Len(t.texts) = 9)
      \cup BZPart(t, ev.G, ev.sc4) : i \in 1..Len(ev.r.shots)})
\* the script for the hexagonal zone: markers in 1/6 of the reciprocal vectors
HX6 == <<<<2, 1>>, <<1, 2>>>>
DoBZScript(ev) == ev.a = "BZScript" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"} ELSE
  LET R == RecGram(HX6, <<<<1, 0>>, <<0, 1>>>>)
      Ks == TLCEval(Corners(R, 2))
      Ms == TLCEval(Centres(R, 2, 1))
      grid == {<<6 * n[1], 6 * n[2]>> : n \in BZPoints}
  IN C("shown", How(ev, <<"show">>))
     \cup UNION {LET t == ev.r.shots[i] IN
       C("points", SetOf(t.pts) = grid \cup Ks \cup Ms)
       \cup C("labels", SetOf(t.texts) = {<<Pair(n), <<6 * n[1], 6 * n[2]>>>> : n \in BZPoints} \cup {<<"Gamma", <<0, 0>>>>}
                          \cup {<<"K", x>> : x \in Ks} \cup {<<"M", x>> : x \in Ms} /\ NoDup(t.texts))
       \cup BZPart(t, HX6, 4) : i \in 1..Len(ev.r.shots)})

(* lines: integer points in 1/4, sampled polyline points in 1/100 of that *)
Title(ev) ==
  LET p == ev.p
      q == ev.q
      dx == q[1] - p[1]
      dy == q[2] - p[2]
      t == ev.r.shots[1].title
  IN IF dy = 0 THEN t = <<"y", 2500 * p[2]>>
     ELSE IF dx = 0 THEN t = <<"x", 2500 * p[1]>>
     ELSE Len(t) = 3 /\ t[1] = "s" /\ 2 * Abs(t[2] * dx - 10000 * dy) <= Abs(dx) + 2
          /\ 2 * Abs(t[3] * dx - 2500 * (p[2] * dx - p[1] * dy)) <= Abs(dx) + 2
Poly(ev) == LET t == ev.r.shots[1] IN
  /\ SetOf(t.ends) = {<<100 * (2 * ev.p[1] - ev.q[1]), 100 * (2 * ev.p[2] - ev.q[2])>>, <<100 * (2 * ev.q[1] - ev.p[1]), 100 * (2 * ev.q[2] - ev.p[2])>>}
  /\ \A i \in 1..Len(t.mid) : Abs(Cross(<<100 * ev.p[1], 100 * ev.p[2]>>, <<100 * ev.q[1], 100 * ev.q[2]>>, t.mid[i]))
                                <= 100 * (Abs(ev.q[1] - ev.p[1]) + Abs(ev.q[2] - ev.p[2]))
DoLine(ev) == ev.a = "Line" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"} ELSE IF Len(ev.r.shots) # 1 THEN {"shown"} ELSE
  LET t == ev.r.shots[1] IN
  C("shown", How(ev, <<"show">>)) \cup C("line", Poly(ev)) \cup C("title", Title(ev))
  \cup C("markers", SetOf(t.pts) = (IF ev.loc THEN {ev.x} ELSE {ev.p, ev.q}) /\ NoDup(t.pts))
  \cup C("labels", SetOf(t.texts) = (IF ev.loc THEN {<<"p", ev.x>>} ELSE {<<"$p_0$", ev.p>>, <<"$p_1$", ev.q>>}) /\ NoDup(t.texts))
  \cup C("closed", ev.r.open = 0))

(* polygons: closed boundary through the vertices, the point as a square *)
DoPoly(ev) == ev.a = "Poly" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"} ELSE IF Len(ev.r.shots) # 1 THEN {"shown"} ELSE
  LET t == ev.r.shots[1]
      n == Len(ev.V)
  IN C("shown", How(ev, <<"show">>))
     \cup C("boundary", {SetOf(t.segs[i]) : i \in 1..Len(t.segs)} = {{ev.V[i], ev.V[(i % n) + 1]} : i \in 1..n} /\ Len(t.segs) = n)
     \cup C("vertices", SetOf(t.pts) = SetOf(ev.V) /\ NoDup(t.pts))
     \cup C("point", t.sq = (IF ev.loc THEN <<ev.x>> ELSE <<>>))
     \cup C("axes", t.equal) \cup C("closed", ev.r.open = 0))

(* the octahedron script, on its half axes; an edge is dashed when both its   *)
(* faces point away from the viewer                                           *)
Axes6 == {<<a, 0, 0>> : a \in {-1, 1}} \cup {<<0, a, 0>> : a \in {-1, 1}} \cup {<<0, 0, a>> : a \in {-1, 1}}
Origin3 == <<0, 0, 0>>
Edges12 == {e \in {{x, y} : x \in Axes6, y \in Axes6} : Cardinality(e) = 2 /\ \E x, y \in e : Dot(x, y) = 0}
FacesOf(e) == {f \in Tuples(<<1, 1, 1>>) : (\A i \in 1..3 : f[i] # 0) /\ \A x \in e : Dot(f, x) = 1}
Hidden(e, view) == \A f \in FacesOf(e) : Dot(f, view) < 0
DoOcta(ev) == /\ ev.a = "Octa"
  /\ Keep({"Octahedron_azimuth=0_elevation=20.png"})
  /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"} ELSE IF Len(ev.r.shots) # 2 THEN {"shown"} ELSE
  C("shown-and-saved", ev.r.nshow = 1 /\ ev.r.nsave = 1)
  \cup C("file", Files(ev, {"Octahedron_azimuth=0_elevation=20.png"}))
  \cup UNION {LET t == ev.r.shots[i] IN
       C("corners", SetOf(t.pts) = Axes6 \cup {Origin3} /\ NoDup(t.pts))
       \cup C("edges", {SetOf(t.segs[j][1]) : j \in 1..Len(t.segs)} = Edges12 \cup {{Origin3, x} : x \in Axes6} /\ Len(t.segs) = 18)
       \cup C("hidden-edges", \A j \in 1..Len(t.segs) : LET e == SetOf(t.segs[j][1]) IN
                 (t.segs[j][2] = "--") <=> (Origin3 \in e \/ Hidden(e, t.view))) : i \in 1..2})

Init == s \in 1..Len(Trace) /\ k = 1 /\ env = [L |-> Make(H.d, H.G, H.P, H.V), files |-> {}, win |-> <<>>]
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             DoLat(ev) \/ DoDraw(ev) \/ DoBZ(ev) \/ DoBZScript(ev) \/ DoLine(ev) \/ DoPoly(ev) \/ DoOcta(ev)
             \/ (ev.a = "Abort" /\ UNCHANGED env /\ Report(s, k, {"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
