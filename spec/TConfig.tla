------------------------------ MODULE TConfig ------------------------------
(* Recorded sessions of fresh processes: settings first, then judgements.     *)
EXTENDS Config, TraceBase
VARIABLES s, k, cfg
vars == <<s, k, cfg>>
Query(bad) == UNCHANGED cfg /\ Report(s, k, bad)
OUT == {"KeyError", "RuntimeError", "ValueError"}
Refused == {"AssertionError", "TypeError", "ValueError"}
\* v = <<a, m>>; digits are natural numbers, thresholds non-negative floats
Legal(ev) == ev.form = (IF ev.mod \in Digital THEN "int" ELSE "float") /\ ~ev.neg
DoSet(ev) == ev.a = "Set" /\
  IF Legal(ev) THEN cfg' = [cfg EXCEPT ![ev.mod] = IF ev.def THEN Default[ev.mod] ELSE ev.v] /\ Report(s, k, C("fails", IsVal(ev)))
  ELSE Query(C("illegal-setting", IsErr(ev, Refused)))
Digits(ev) == IF ev.kind = "bond" THEN cfg["bond"][2] ELSE cfg["site"][2]
DoEq(ev) == ev.a = "Eq" /\ LET e == IF ev.kind = "bond" THEN SameAt(ev.x, ev.y, Digits(ev), ev.m) /\ SameAt(ev.x2, ev.y2, Digits(ev), ev.m)
                                  ELSE SameAt(ev.x, ev.y, Digits(ev), ev.m) IN
  Query(IF ~IsVal(ev) THEN {"fails"} ELSE C("equality", ev.r.eq = e /\ ev.r.ne = ~e) \cup C("hash", e => ev.r.hash)
        \cup C("table", ev.r.found = e))
DoMake(ev) == ev.a = "Make" /\ Query(
  LET bad == ~Fits(ev.n, ev.d, ev.k, ev.dv)
  IN IF bad THEN C("shapes", IsErr(ev, {"ValueError"}))
     ELSE IF Twice(ev.P, ev.m, cfg["lattice"]) THEN C("duplicate-points", IsErr(ev, {"ValueError"}))
     ELSE IF Twice(ev.V, ev.m, cfg["lattice"]) THEN C("duplicate-vectors", IsErr(ev, {"ValueError"}))
     ELSE IF IsVal(ev) THEN C("sizes", ev.r.n = <<ev.n, ev.d, ev.k>>) ELSE {"refuses"})
\* a site of the lattice displaced by e / 10^m
DoIn(ev) == ev.a = "In" /\ LET in == Shorter(ev.e, ev.m, cfg["lattice"]) IN
  Query(IF ev.fn = "in" THEN (IF IsVal(ev) THEN C("in-cluster", ev.r.b = (in /\ ev.home)) ELSE {"fails"})
        ELSE IF ev.fn = "index" /\ ~ev.fold THEN (IF in /\ ev.home THEN C("index", IsVal(ev) /\ ev.r.i = ev.i) ELSE C("foreign", IsErr(ev, OUT)))
        ELSE IF ev.fn = "index" THEN (IF in THEN C("index", IsVal(ev) /\ ev.r.i = ev.i) ELSE C("foreign", IsErr(ev, OUT)))
        ELSE IF in THEN C("decompose", IsVal(ev) /\ ev.r.i = ev.i) ELSE C("foreign", IsErr(ev, OUT)))
\* distances of the chain: returned value in 1e-6, within the precision
DoNd(ev) == ev.a = "Nd" /\ Query(IF ~IsVal(ev) THEN {"fails"} ELSE
  LET sp == Split(ev.e, ev.m, cfg["lattice"])
      x == Shell(ev.n, sp)
      tol == IF cfg["lattice"][2] >= 6 THEN 2 ELSE 1 + Ten(6 - cfg["lattice"][2])
  IN C("neighbor-distance", Ab(ev.r.d - (1000000 * x[1] + x[2] * (IF ev.m > 6 THEN ev.e \div Ten(ev.m - 6) ELSE ev.e * Ten(6 - ev.m)))) <= tol))
DoBonds(ev) == ev.a = "Bonds" /\ Query(IF ~IsVal(ev) THEN {"fails"} ELSE
  C("bonds", ev.r.n = Bonds1(Split(ev.e, ev.m, cfg["lattice"]))))
DoKrylov(ev) == ev.a = "Krylov" /\ Query(
  IF Shorter(<<ev.v>>, ev.vm, cfg["krylov"]) THEN C("zero-start", IsErr(ev, {"ValueError"}))
  ELSE IF IsVal(ev) THEN C("dimension", ev.r.dim = KrylovDim(ev.c, ev.m, cfg["krylov"])) \cup C("projected", ev.r.len = ev.r.dim) ELSE {"fails"})
DoAxis(ev) == ev.a = "Axis" /\ Query(
  IF Shorter(ev.e, ev.m, cfg["rotation"]) THEN C("zero-axis", IsErr(ev, {"ValueError"}))
  ELSE IF IsVal(ev) THEN C("axis-kept", ev.r.dev <= 1000) ELSE {"refuses"})
Init == s \in 1..Len(Trace) /\ k = 1 /\ cfg = Default
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             DoSet(ev) \/ DoEq(ev) \/ DoMake(ev) \/ DoIn(ev) \/ DoNd(ev) \/ DoBonds(ev) \/ DoKrylov(ev) \/ DoAxis(ev)
             \/ (ev.a = "Abort" /\ UNCHANGED cfg /\ Report(s, k, {"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
