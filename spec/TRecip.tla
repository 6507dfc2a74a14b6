-------------------------------- MODULE TRecip --------------------------------
(* Recorded reciprocal-space answers. Header: lat = [d, G, P, V], orth =      *)
(* frame vectors orthogonal to the translations. Dot products come in units   *)
(* of 2 pi / 10^6.                                                            *)
EXTENDS Recip, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
T == Trace[s]
Query(bad) == UNCHANGED env /\ Report(s, k, bad)
Mi == 1000000
Near(x, y) == x - y \in {-1, 0, 1}
OrthOK == /\ \A i \in 1..Len(T.lat.V), j \in 1..Len(T.orth) : Inner(T.lat.G, T.lat.V[i], T.orth[j]) = 0
          /\ Len(T.orth) + Len(T.lat.V) = T.lat.d
          /\ Det(T.lat.V \o T.orth, T.lat.d) # 0
DoDual(ev) == ev.a = "Dual" /\
  LET n == Len(T.lat.V) IN
  Query(IF ~IsVal(ev) THEN {"fails"}
        ELSE IF ~OrthOK THEN {"bad-header"}
        ELSE C("shape", ev.r.sh = <<n, T.lat.d>>)
             \cup (IF ev.r.sh # <<n, T.lat.d>> THEN {} ELSE
                   C("dual", \A i, j \in 1..n : Near(ev.r.dots[i][j], IF i = j THEN Mi ELSE 0))
                   \cup C("span", \A i \in 1..Len(T.orth), j \in 1..n : Near(ev.r.orth[i][j], 0))))
\* points as coefficients in sixths of the reciprocal vectors
DoHS(ev) == ev.a = "HS" /\
  \E d \in {T.lat.d} : \E H \in {RecGram(T.lat.G, T.lat.V)} :
  \E want \in {IF ev.rank = 0 THEN {[i \in 1..d |-> 0]} ELSE Centres(H, d, ev.rank)} :
     Query(IF ~IsVal(ev) THEN {"fails"}
           ELSE C("points", SetOf(ev.r.ks) = want) \cup C("listed-once", Len(ev.r.ks) = Cardinality(want)))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = <<>>
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             \/ DoDual(ev) \/ DoHS(ev) \/ (ev.a = "Abort" /\ Query({"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
