-------------------------------- MODULE TGreen --------------------------------
(* Recorded Green-function calls. Header: H, vecs (sequence of state vectors, *)
(* one per operator), dag (index of the adjoint of each operator). Values     *)
(* come in units 1/u as given by the event. GB: H is given as blocks bl with   *)
(* vectors bv of <<block, local vector>>.                                      *)
EXTENDS Green, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
T == Trace[s]
Query(bad) == UNCHANGED env /\ Report(s, k, bad)
\* |g d - u n| <= |d| + rounding, componentwise, g in units 1/u
Close(g, f, u) ==
  LET x == ZAdd(ZMul(g, f[2]), ZS(-u, f[1]))
      A(y) == IF y < 0 THEN -y ELSE y
      t == A(f[2][1]) + A(f[2][2]) + 1
  IN A(x[1]) <= t /\ A(x[2]) <= t
Want(ev, A, B, w) ==
  LET E1(sg, a, b) == Element(T.H, w[1], w[2], w[3], ev.e * (w[3] \div ev.er), sg, a, b)
      GF(sg) == E1(sg, T.vecs[T.dag[A]], T.vecs[B])
  IN IF ~ev.ret THEN GF(ev.sg)
     ELSE LET x == GF(-1)
              y == E1(1, T.vecs[T.dag[B]], T.vecs[A])
          IN FAdd(x, IF ev.sg = 1 THEN y ELSE FNeg(y))
DoGF(ev) == ev.a = "GF" /\
  Query(IF ~IsVal(ev) THEN {"fails"}
        ELSE C("argument-changed", ev.r.same)
        \cup C("structure", ev.r.st)
        \cup (IF ~ev.r.st THEN {} ELSE
              C("value", \A i \in 1..Len(ev.As), j \in 1..Len(ev.Bs), w \in 1..Len(ev.om) :
                 \E f \in {Want(ev, ev.As[i], ev.Bs[j], ev.om[w])} : Close(ev.r.g[i][j][w], f, ev.u))))
\* larger Hamiltonians are sums of small blocks: element by element, in units 1/u
RD(x, y) == (2 * x + y) \div (2 * y)
Units(f, u) ==
  LET q == ZMul(f[1], ZCon(f[2]))
      d == f[2][1] * f[2][1] + f[2][2] * f[2][2]
  IN <<RD(u * q[1], d), RD(u * q[2], d)>>
BSum(ev, sg, va, vb, w) ==
  ZSum([i \in 1..Len(va) |->
     ZSum([j \in 1..Len(vb) |->
        IF va[i][1] # vb[j][1] THEN Z0
        ELSE Units(Element(T.bl[va[i][1]], w[1], w[2], w[3], ev.e * (w[3] \div ev.er), sg, va[i][2], vb[j][2]), ev.u)],
        Len(vb))], Len(va))
BWant(ev, A, B, w) ==
  LET GF(sg) == BSum(ev, sg, T.bv[T.dag[A]], T.bv[B], w)
  IN IF ~ev.ret THEN GF(ev.sg)
     ELSE LET x == GF(-1)
              y == BSum(ev, 1, T.bv[T.dag[B]], T.bv[A], w)
          IN ZAdd(x, IF ev.sg = 1 THEN y ELSE ZNeg(y))
Within(g, x, tol) == LET A(y) == IF y < 0 THEN -y ELSE y IN A(g[1] - x[1]) <= tol /\ A(g[2] - x[2]) <= tol
DoGB(ev) == ev.a = "GB" /\
  Query(IF ~IsVal(ev) THEN {"fails"}
        ELSE C("argument-changed", ev.r.same)
        \cup C("structure", ev.r.st)
        \cup (IF ~ev.r.st THEN {} ELSE
              C("value", \A i \in 1..Len(ev.As), j \in 1..Len(ev.Bs), w \in 1..Len(ev.om) :
                 \E x \in {BWant(ev, ev.As[i], ev.Bs[j], ev.om[w])} :
                   Within(ev.r.g[i][j][w], x, 8 + Len(T.bv[ev.As[i]]) + Len(T.bv[ev.Bs[j]])))))
\* an operator whose excited state is not among those given
DoMissing(ev) == ev.a = "Missing" /\ Query(C("missing-state-accepted", IsErr(ev, {"KeyError"})))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = <<>>
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN DoGF(ev) \/ DoGB(ev) \/ DoMissing(ev) \/ (ev.a = "Abort" /\ Query({"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
