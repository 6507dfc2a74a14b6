------------------------------- MODULE TKrylov -------------------------------
(* Recorded Krylov projections. Header: M, vecs (Gaussian integers). Moments  *)
(* come in 1/100, matrix entries in 1e-6, the projected start in 1e-3.        *)
EXTENDS Krylov, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
T == Trace[s]
Query(bad) == UNCHANGED env /\ Report(s, k, bad)
Within(x, y, tol) == x - y <= tol /\ y - x <= tol
MinOf(a, b) == IF a < b THEN a ELSE b
\* one projection r started from vector v with limit lim and the projected keys
Judge(M, v, vi, lim, keys, K, r) ==
  LET rank == KrylovRank(M, v)
      n == MinOf(lim, rank)
      upto == IF n = rank THEN K ELSE n - 1
      n2 == Braket(v, v)[1]
  IN C("dimension", r.n = n)
     \cup C("real-symmetric", r.real)
     \cup (IF r.n # n \/ Len(r.T) # n THEN {"shape"} ELSE
           C("symmetric", \A i, j \in 1..n : Within(r.T[i][j], r.T[j][i], 1))
           \cup C("tridiagonal", \A i, j \in 1..n : (i - j > 1 \/ j - i > 1) => Within(r.T[i][j], 0, 1)))
     \cup C("keys", Len(r.pl) = Len(keys) /\ \A i \in 1..Len(r.pl) : r.pl[i] = n)
     \cup C("start-vector", \A i \in 1..Len(keys) : keys[i] = vi =>
              /\ Len(r.pv) = n
              /\ Within(r.pv[1][1] * r.pv[1][1], n2 * 1000000, 2 * r.pv[1][1] + 2)
              /\ r.pv[1][1] >= 0 /\ Within(r.pv[1][2], 0, 1)
              /\ \A j \in 2..Len(r.pv) : Within(r.pv[j][1], 0, 1) /\ Within(r.pv[j][2], 0, 1))
     \cup C("moments", \A q \in 0..K : q <= upto => \A i \in 1..Len(keys) :
              /\ Len(r.mom) = K + 1 /\ Len(r.mom[q + 1]) = Len(keys)
              /\ \E m \in {Moment(M, T.vecs[keys[i]], v, q)} :
                   Within(r.mom[q + 1][i][1], 100 * m[1], 1) /\ Within(r.mom[q + 1][i][2], 100 * m[2], 1))
DoKry(ev) == ev.a = "Kry" /\
  \E M \in {T.M} : \E v \in {T.vecs[ev.v]} :
    Query(IF ~Hermitian(M) THEN {"bad-header"}
          ELSE IF ZeroVec(v) THEN C("zero-start-accepted", IsErr(ev, {"ValueError"}))
          ELSE IF ~IsVal(ev) THEN {"fails"}
          ELSE Judge(M, v, ev.v, ev.lim, ev.keys, ev.K, ev.r) \cup C("argument-changed", ev.r.same))
DoMulti(ev) == ev.a = "Multi" /\
  \E M \in {T.M} :
    Query(IF \E i \in 1..Len(ev.keys) : ZeroVec(T.vecs[ev.keys[i]])
          THEN C("zero-start-accepted", IsErr(ev, {"ValueError"}))
          ELSE IF ~IsVal(ev) THEN {"fails"}
          ELSE C("argument-changed", ev.r.same)
               \cup (IF Len(ev.r.res) # Len(ev.keys) THEN {"keys"} ELSE
                     UNION {Judge(M, T.vecs[ev.keys[i]], ev.keys[i], ev.lim, ev.keys, ev.K, ev.r.res[i]) : i \in 1..Len(ev.keys)}))
(* Paths, in units of 1/10000. Vectors are [p, g, u]: u the nonzero components *)
(* <<state, re, im>>; p > 0 tells that it is i^g times a positive multiple of  *)
(* the basis state of place p. Matrices come as diagonal, first off-diagonals  *)
(* and whether anything else is nonzero, in 1e-6; projections in 1e-3.         *)
USeq(u) == [r \in 1..Len(T.path.a) |-> IF \E i \in 1..Len(u) : u[i][1] = r
              THEN LET i == CHOOSE x \in 1..Len(u) : u[x][1] = r IN <<u[i][2], u[i][3]>> ELSE Z0]
PJudge(p, g, lim, keys, r) ==
  LET P == T.path
      m == MinOf(lim, PathReach(P, p)) IN
    C("dimension", r.n = m)
       \cup (IF r.n # m \/ Len(r.d) # m \/ Len(r.up) # m - 1 \/ Len(r.lo) # m - 1 THEN {"shape"} ELSE
             C("tridiagonal", r.tri)
             \cup C("diagonal", \A j \in 1..m : Within(r.d[j], 100 * PathDiag(P, p, j), 1))
             \cup C("couplings", \A j \in 1..(m - 1) : Within(r.up[j], 100 * PathOff(P, p, j), 1)
                                                       /\ Within(r.lo[j], 100 * PathOff(P, p, j), 1)))
       \cup (IF Len(r.pv) # Len(keys) THEN {"keys"} ELSE
             C("projections", \A i \in 1..Len(keys) :
               \E u \in {USeq(T.pvecs[keys[i]].u)} :
                 /\ r.pl[i] = m
                 /\ \A j \in 1..m :
                      LET x == PathProj(P, p, g, j, u)
                          hit == {e \in SetOf(r.pv[i]) : e[1] = j}
                      IN IF x = Z0 THEN hit = {}
                         ELSE \E e \in hit : Within(e[2], 1000 * x[1], 1) /\ Within(e[3], 1000 * x[2], 1)))
DoPKry(ev) == ev.a = "PKry" /\
  \E v \in {T.pvecs[ev.v]} :
    Query(IF ~PathStart(T.path, v.p) THEN {"bad-header"}
          ELSE IF ~IsVal(ev) THEN {"fails"}
          ELSE PJudge(v.p, v.g, ev.lim, ev.keys, ev.r) \cup C("argument-changed", ev.r.same))
DoPMulti(ev) == ev.a = "PMulti" /\
    Query(IF ~IsVal(ev) THEN {"fails"}
          ELSE C("argument-changed", ev.r.same)
               \cup (IF Len(ev.r.res) # Len(ev.keys) THEN {"keys"} ELSE
                     UNION {PJudge(T.pvecs[ev.keys[i]].p, T.pvecs[ev.keys[i]].g, ev.lim, ev.keys, ev.r.res[i]) : i \in 1..Len(ev.keys)}))
\* changing the zero threshold (above rounding noise, below every norm) changes no answer
DoThr(ev) == ev.a = "Thr" /\ env' = <<ev.t>> /\ Report(s, k, IF IsVal(ev) THEN {} ELSE {"fails"})
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = <<>>
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             DoKry(ev) \/ DoMulti(ev) \/ DoPKry(ev) \/ DoPMulti(ev) \/ DoThr(ev) \/ (ev.a = "Abort" /\ Query({"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
