--------------------------------- MODULE TRot ---------------------------------
(* Recorded rotation calls. Matrices come in units 1/U; env is the product of *)
(* the matrices of the current program, maintained by the specification.      *)
(* fix: how far a general rotation moves its own axis, in 1e-12.              *)
EXTENDS Rot, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
Tol == 16
Deg(d) == [k |-> "deg", d |-> d]
Turn(ax, d) == Rodr(UnitVec(ax), CS(Deg(d)))
SwapM(i, j) == [a \in 1..3 |-> [b \in 1..3 |->
   IF (a = i /\ b = j) \/ (a = j /\ b = i) \/ (a = b /\ a # i /\ a # j) THEN U ELSE 0]]
EX == <<1, 0, 0>>
EY == <<0, 1, 0>>
EZ == <<0, 0, 1>>
AxV(ax) == IF ax = "X" THEN EX ELSE IF ax = "Y" THEN EY ELSE EZ
NamedM(ev) ==
  IF ev.form = "identity" THEN IdM
  ELSE IF ev.form = "inversion" THEN NegM(IdM)
  ELSE IF ev.form = "anticyclic" THEN SwapM(IF ev.d = 0 THEN 2 ELSE 1, IF ev.d = 2 THEN 2 ELSE 3)
  ELSE Turn(IF ev.form = "111" THEN <<1, 1, 1>> ELSE AxV(ev.form), ev.d)
AxisOf(ev) == IF ev.ax.k = "car" THEN UnitVec(ev.ax.v) ELSE Sph(ev.ax.al, ev.ax.be)
Want(ev) ==
  IF ev.fn = "const" THEN NamedM(ev)
  ELSE Maybe(ev.inv, IF ev.fn = "axis" THEN Rodr(UnitVec(AxV(ev.form)), CS(ev.th))
                     ELSE IF ev.fn = "general" THEN Rodr(AxisOf(ev), CS(ev.th))
                     ELSE EulerM(CS(ev.al), CS(ev.be), CS(ev.ga)))
Proper(ev) == IF ev.fn = "const" THEN ev.form \notin {"inversion", "anticyclic"} ELSE ~ev.inv
Angles(ev) == {ev[f] : f \in {"th", "al", "be", "ga"} \cap DOMAIN ev}
Mil == 1000000
DoMat(ev) == ev.a = "Mat" /\
  IF ~IsVal(ev) THEN UNCHANGED env /\ Report(s, k, {"fails"})
  ELSE \E W \in {Want(ev)} :
     /\ env' = IF ev.fresh \/ env = <<>> THEN <<W, 1>> ELSE <<MulM(env[1], W), env[2] + 1>>
     /\ Report(s, k,
          C("bad-angle", \A x \in Angles(ev) : AngleOK(x))
          \cup (IF Len(ev.r.m) # 3 THEN {"shape"} ELSE
            C("matrix", CloseM(ev.r.m, W, Tol))
            \cup C("determinant", ev.r.det = IF Proper(ev) THEN Mil ELSE -Mil)
            \cup C("orthogonal", ev.r.orth <= 10)
            \cup C("exact-entries", ev.r.fine <= 50)
            \cup C("axis-moves", ev.r.fix <= 2000)
            \cup C("composition", CloseM(ev.r.acc, env'[1], Tol * env'[2] + 4))
            \cup C("argument-changed", ev.r.same)))
\* Turning by a tiny further angle x changes a rotation to R (1 + x K + O(x^2)), K v = n x v.
DoSmall(ev) == ev.a = "Small" /\ UNCHANGED env /\
  IF ~IsVal(ev) THEN Report(s, k, {"fails"})
  ELSE \E n \in {UnitVec(IF ev.form = "" THEN ev.ax ELSE AxV(ev.form))} :
       Report(s, k, C("further", CloseM(ev.r.g, [i \in 1..3 |-> [j \in 1..3 |-> Cross(n, i, j)]], Tol)))
DoZero(ev) == ev.a = "Bad" /\ UNCHANGED env /\ Report(s, k, C("accepted", IsErr(ev, {"ValueError"})))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = <<>>
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             DoMat(ev) \/ DoSmall(ev) \/ DoZero(ev) \/ (ev.a = "Abort" /\ UNCHANGED env /\ Report(s, k, {"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
