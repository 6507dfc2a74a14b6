-------------------------------- MODULE TKPath --------------------------------
(* Recorded k-path calls. Anchors are integer vectors; returned points come   *)
(* as integers in units of 1/10000.                                           *)
EXTENDS KPathSpec, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
Query(bad) == UNCHANGED env /\ Report(s, k, bad)
U == 10000
ABS(x) == IF x < 0 THEN -x ELSE x
DoKPath(ev) == ev.a = "KPath" /\
  IF Degenerate(ev.A, ev.loop) THEN Query(C("coinciding-accepted", IsErr(ev, {"ValueError"})))
  ELSE IF ~IsVal(ev) THEN Query({"fails"})
  ELSE \E N \in {Nums(ev.A, ev.loop, ev.m)} : \E S \in {Stops(ev.A, ev.loop)} :
       \E ix \in {Indices(N)} : \E ks \in {ev.r.ks} : \E dim \in {Len(ev.A[1])} :
         LET tot == ix[Len(ix)] + 1
             \* point j of segment g, times N[g]
             good(g, j) == \A c \in 1..dim :
                ABS(ks[ix[g] + j + 1][c] * N[g] - U * (S[g][c] * N[g] + j * (S[g + 1][c] - S[g][c]))) <= N[g]
         IN Query(C("indices", ev.ri => ev.r.ix = ix)
            \cup C("no-indices", ev.r.hasix = ev.ri)
            \cup (IF Len(ks) # tot THEN {"total"} ELSE
                  C("samples", \A g \in 1..Len(N) : \A j \in 0..(N[g] - 1) : good(g, j))
                  \cup C("last-anchor", ks[tot] = [c \in 1..dim |-> U * S[Len(S)][c]]))
            \cup C("argument-changed", ev.r.same))
\* Long paths along the axes with lengths 1 and 2: the number of points of a
\* segment is exactly m times its length over the shortest; the points at the
\* positions ev.r.at[.][1] are told.
AxisLen(a, b) == LET f == [i \in 1..Len(a) |-> ABS(b[i] - a[i])] IN
  IF Len(a) = 2 THEN f[1] + f[2] ELSE f[1] + f[2] + f[3]
DoLong(ev) == ev.a = "Long" /\
  IF ~IsVal(ev) THEN Query({"fails"})
  ELSE \E S \in {Stops(ev.A, ev.loop)} : \E L \in {TLCEval([g \in 1..(Len(S) - 1) |-> AxisLen(S[g], S[g + 1])])} :
       \E N \in {TLCEval([g \in 1..Len(L) |-> ev.m * (L[g] \div Shortest(L))])} :
       \E ix \in {Indices(N)} :
         LET \* the segment of point i and the point
             seg(i) == CHOOSE g \in 1..Len(N) : ix[g] <= i /\ i < ix[g + 1]
             good(i, p) == IF i = ix[Len(ix)] THEN p = [c \in 1..Len(S[1]) |-> U * S[Len(S)][c]]
                           ELSE \E g \in {seg(i)} : \E j \in {i - ix[g]} : \A c \in 1..Len(S[1]) :
                                ABS((p[c] - U * S[g][c]) * (N[g] \div 1000) - ((U * j) \div 1000) * (S[g + 1][c] - S[g][c])) <= (N[g] \div 1000) + 2
         IN Query(C("indices", ev.r.ix = ix) \cup C("total", ev.r.n = ix[Len(ix)] + 1)
            \cup C("samples", ev.r.n = ix[Len(ix)] + 1 => \A q \in 1..Len(ev.r.at) : good(ev.r.at[q][1], ev.r.at[q][2])))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = <<>>
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN DoKPath(ev) \/ DoLong(ev) \/ (ev.a = "Abort" /\ Query({"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
