------------------------------ MODULE TResponse ------------------------------
(* Recorded Green functions of assembled models. Header lat is the integer    *)
(* cluster (for CPT: the unit cell). Frequencies z = (p + iq)/16, values come *)
(* in units of 1e-5, weights in units of 1/16.                                *)
EXTENDS Response, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
H == Trace[s].lat
ONE == 1600000
A1(x) == Abs(x[1]) + Abs(x[2])
AbsC(x) == Max2(Abs(x[1]), Abs(x[2]))
\* | z g - rhs - one | within the rounding of the values (w: sum of the weights) and the given slack
Holds(sum, w) == AbsC(sum) <= 2 * w + 64
\* indices of the modes in the event
EomOne(ev, K, x, j, f) ==
  LET M == ev.modes
      n == Len(M)
      md(i) == <<M[i][1], M[i][2], M[i][3]>>
      z == ev.om[f]
      v(y) == <<y[1], y[2]>>
      lhs == CMul(z, v(ev.r.g[x][j][f]))
      one == IF ev.Bs[j][2] = CR /\ ev.Bs[j][1] = x THEN ONE ELSE 0
      part(b) == CAdd(CMul(K.h[<<md(x), md(b)>>], v(ev.r.g[b][j][f])),
                 CAdd(IF K.W[<<md(x), md(b)>>] = CZero THEN <<0, 0>> ELSE CMul(K.W[<<md(x), md(b)>>], v(ev.r.gn[x][b][j][f])),
                      IF K.D[<<md(x), md(b)>>] = CZero THEN <<0, 0>> ELSE CMul(K.D[<<md(x), md(b)>>], v(ev.r.gd[b][j][f]))))
      wt == Abs(z[1]) + Abs(z[2]) + SumOver([b \in 1..n |-> A1(K.h[<<md(x), md(b)>>]) + A1(K.W[<<md(x), md(b)>>])
                                                            + A1(K.D[<<md(x), md(b)>>])], 1..n)
  IN Holds(CAdd(CAdd(lhs, <<-one, 0>>), CScale(-1, CSum([b \in 1..n |-> part(b)], 1..n))), wt)
DoEom(ev) == ev.a = "EOM" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"}
  ELSE C("magnitude", ev.r.ok) \cup C("equation-of-motion",
         \E K \in {Kernel(env, ev.m)} : \A x \in 1..Len(ev.modes), j \in 1..Len(ev.Bs), f \in 1..Len(ev.om) :
            EomOne(ev, K, x, j, f)))
\* (z - M) g = 1 for every frequency; M an n x n Gaussian matrix
Inverse(M, g, om, n) ==
  \A f \in 1..Len(om), i, j \in 1..n :
    LET v(b) == <<g[b][j][f][1], g[b][j][f][2]>>
        wt == Abs(om[f][1]) + Abs(om[f][2]) + SumOver([b \in 1..n |-> Abs(M[i][b][1]) + Abs(M[i][b][2])], 1..n)
        sum == CAdd(CMul(om[f], v(i)), CScale(-1, CSum([b \in 1..n |-> CMul(M[i][b], v(b))], 1..n)))
    IN Holds(CAdd(sum, <<IF i = j THEN -ONE ELSE 0, 0>>), wt)
DoCpt(ev) == ev.a = "CPT" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"}
  ELSE C("magnitude", ev.r.ok) \cup C("lattice-green-function",
         \E B \in {Bloch(env, ev.t, ev.ti, ev.mu, ev.kap)} : Inverse(B, ev.r.g, ev.om, Len(env.P))))
DoMagnon(ev) == ev.a = "Magnon" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"}
  ELSE C("magnitude", ev.r.ok) \cup C("one-magnon",
         LET n == Len(env.P)
             sh == TLCEval([x \in 1..Len(ev.m.Jz) |-> Ends(env, x)])
             M == Magnon(sh, ev.m, n, IF ev.up THEN {} ELSE 1..n)
         IN \E X \in {M} : Inverse(X, ev.r.g, ev.om, n)))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = Make(H.d, H.G, H.P, H.V)
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             DoEom(ev) \/ DoCpt(ev) \/ DoMagnon(ev)
             \/ (ev.a = "Abort" /\ UNCHANGED env /\ Report(s, k, {"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
