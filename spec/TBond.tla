-------------------------------- MODULE TBond --------------------------------
(* Recorded bond sessions. Coordinates: integers in units of 10^-6 (m0, m1,     *)
(* for equality) and, where exact, in quarters (q0, q1, for geometry).          *)
EXTENDS Ident, Dyadic, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
Obj(ev) == BondI(ev.m0, ev.m1, ev.dir, env.prec) @@ [q0 |-> ev.q0, q1 |-> ev.q1, m0 |-> ev.m0, m1 |-> ev.m1]
Put(h, o) == env' = [env EXCEPT !.st = (h :> o) @@ env.st]
Query(bad) == UNCHANGED env /\ Report(s, k, bad)
B(h) == env.st[h]
Disp(b) == [i \in 1..Len(b.q0) |-> b.q1[i] - b.q0[i]]
RECURSIVE SumSq(_, _)
SumSq(d, i) == IF i = 0 THEN 0 ELSE d[i] * d[i] + SumSq(d, i - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
SetPrec(ev) == ev.a = "SetPrec" /\ env' = [env EXCEPT !.prec = ev.p] /\ Report(s, k, C("fails", IsVal(ev)))
New(ev) == ev.a = "New" /\ Put(ev.h, Obj(ev)) /\
  Report(s, k, IF IsVal(ev) THEN C("endpoints", ev.r.m0 = ev.m0 /\ ev.r.m1 = ev.m1) \cup C("direction", ev.r.dir = ev.dir)
               ELSE {"fails"})
Ends(ev) == ev.a = "Ends" /\
  LET b == B(ev.x) IN
  Query(IF IsVal(ev) THEN C("endpoints", ev.r.m0 = b.m0 /\ ev.r.m1 = b.m1) \cup C("direction", ev.r.dir = b.dir) ELSE {"fails"})
Flipped(b) == [q0 |-> b.q1, q1 |-> b.q0, m0 |-> b.m1, m1 |-> b.m0] @@ BondI(b.m1, b.m0, TRUE, env.prec)
Flip(ev) == ev.a = "Flip" /\
  LET b == B(ev.x) IN
  IF ~b.dir THEN Query(C("undirected", IsErr(ev, {"NotImplementedError"})))
  ELSE /\ Put(ev.h, Flipped(b))
       /\ Report(s, k, IF IsVal(ev) THEN C("endpoints", ev.r.m0 = b.m1 /\ ev.r.m1 = b.m0)
                                         \cup C("direction", ev.r.dir) ELSE {"fails"})
TF(b) == IF b THEN "T" ELSE "F"
Cmp(ev) == ev.a = "Cmp" /\
  LET eq == EqB(B(ev.x), B(ev.y)) IN
  Query(IF ~IsVal(ev) THEN {"fails"} ELSE
        C("eq", ev.r.eq = TF(eq) /\ ev.r.ne = TF(~eq)) \cup C("hash", eq => ev.r.hash)
        \cup C("member", ev.r.mem = eq) \cup C("unordered", ev.r.lt = "E" /\ ev.r.ge = "E"))
Foreign(ev) == ev.a = "Foreign" /\ Query(IF ~IsVal(ev) THEN {"fails"} ELSE C("eq", ev.r.eq = "F" /\ ev.r.ne = "T"))
Opp(ev) == ev.a = "Opp" /\
  LET b == B(ev.x) IN
  Query(IF ~b.dir THEN C("undirected", IsErr(ev, {"NotImplementedError"}))
        ELSE IF ev.bad THEN C("foreign", IsErr(ev, {"TypeError"}))
        ELSE IF IsVal(ev) THEN C("opposite", ev.r.b = EqB(Flipped(b), B(ev.y))) ELSE {"fails"})
Max0(x) == IF x > 0 THEN x ELSE 0
Length(ev) == ev.a = "Len" /\
  LET n == SumSq(Disp(B(ev.x)), Len(B(ev.x).q0))
      r == ev.r
      p == Pow10(2 * ev.nd)
  IN Query(IF ~IsVal(ev) THEN {"fails"} ELSE
       IF ev.nd = -1 THEN C("length", r.sq = DNorm(n, 0, 4) /\ r.pos)
       ELSE C("length", /\ r.near /\ r.n >= 0
                        /\ Max0(2 * r.n - 1) * Max0(2 * r.n - 1) * 4 <= n * p
                        /\ n * p <= (2 * r.n + 1) * (2 * r.n + 1) * 4))
Displace(ev) == ev.a = "Disp" /\
  LET b == B(ev.x)
      d == Disp(b)
      r == ev.r
  IN Query(IF ~b.dir THEN C("undirected", IsErr(ev, {"NotImplementedError"}))
       ELSE IF ~IsVal(ev) THEN {"fails"}
       ELSE IF Len(r.v) # Len(d) THEN {"dimension"}
       ELSE IF ev.nd = -1 THEN C("displace", \A i \in 1..Len(d) : r.v[i] = DNorm(d[i], 0, 2))
       ELSE C("displace", r.near /\ \A i \in 1..Len(d) : Abs(2 * (4 * r.v[i][1] - d[i] * Pow10(ev.nd))) <= 4))
\* direction (c, s) scaled by 10^6 within tolerance t of the vector (x, y)
Along(x, y, c, sn, t) == /\ Abs(x * sn - y * c) <= (Abs(x) + Abs(y)) * t
                         /\ (x # 0 => x * c > -Abs(x) * t) /\ (y # 0 => y * sn > -Abs(y) * t)
                         /\ x * c + y * sn > 0
HasRoot(n) == \E r \in 0..200 : r * r = n
Root(n) == CHOOSE r \in 0..200 : r * r = n
Azimuth(ev) == ev.a = "Azi" /\
  LET b == B(ev.x)
      d == Disp(b)
      r == ev.r
      t == 2 + (IF ev.nd = -1 THEN 0 ELSE IF ev.rad THEN 500000 \div Pow10(ev.nd) ELSE 8727 \div Pow10(ev.nd) + 1)
      rho2 == d[1] * d[1] + d[2] * d[2]
  IN Query(IF ~b.dir THEN C("undirected", IsErr(ev, {"NotImplementedError"}))
       ELSE IF ~IsVal(ev) THEN {"fails"}
       ELSE IF \A i \in 1..Len(d) : d[i] = 0 THEN {}
       ELSE C("rounding", r.near) \cup
         (CASE Len(d) = 1 -> C("azimuth", Len(r.v) = 1 /\ Along(d[1], 0, r.v[1][1], r.v[1][2], t) /\ r.v[1][3])
            [] Len(d) = 2 -> C("azimuth", Len(r.v) = 1 /\ Along(d[1], d[2], r.v[1][1], r.v[1][2], t) /\ r.v[1][3])
            [] OTHER ->
               IF Len(r.v) # 2 THEN {"dimension"} ELSE
               C("azimuth", r.v[1][3] /\ r.v[2][3])
               \cup C("polar", r.v[1][2] >= -t /\ (HasRoot(rho2) => Along(d[3], Root(rho2), r.v[1][1], r.v[1][2], t)))
               \cup C("planar", rho2 # 0 => Along(d[1], d[2], r.v[2][1], r.v[2][2], t))))
(* Nearly axial bonds: one component X, a multiple of a quarter, one tiny      *)
(* component Y (micro units), the others 0. Sines and cosines come in 1e-9.    *)
Tiny(v, y, x) == Abs(v) < 1000000 /\ Abs(v * (Abs(x) \div 250000) - y * 4000) <= 3 * (Abs(x) \div 250000)
Full(v, x) == Abs(v - (IF x > 0 THEN 1000000000 ELSE -1000000000)) <= 200
\* direction (c, s) of a plane vector whose components are u and w, one of them tiny or zero
Tilted(a, u, w) == IF Abs(u) > Abs(w) THEN Full(a[1], u) /\ Tiny(a[2], w, IF Abs(u) < 250000 THEN 250000 ELSE u)
                   ELSE Full(a[2], w) /\ Tiny(a[1], u, IF Abs(w) < 250000 THEN 250000 ELSE w)
Tilt(ev) == ev.a = "Tilt" /\
  LET b == B(ev.x)
      d == [i \in 1..Len(b.m0) |-> b.m1[i] - b.m0[i]]
      r == ev.r
      rho == IF Len(d) = 3 THEN (IF d[1] = 0 THEN Abs(d[2]) ELSE IF Abs(d[1]) < Abs(d[2]) THEN Abs(d[2]) ELSE Abs(d[1])) ELSE 0
  IN Query(IF ~IsVal(ev) THEN {"fails"}
       ELSE C("displace", r.d = [i \in 1..Len(d) |-> 100 * d[i]])
            \cup (IF Len(d) = 2 THEN C("azimuth", Len(r.v) = 1 /\ Tilted(r.v[1], d[1], d[2]))
                  ELSE IF Len(r.v) # 2 THEN {"dimension"}
                  ELSE C("polar", Tilted(r.v[1], d[3], rho)) \cup C("planar", Tilted(r.v[2], d[1], d[2]))))
(* Bonds far from the origin: the extent d, in units of a power of two, is all *)
(* that length and displacement depend on (results in thousandths).            *)
Far(ev) == ev.a = "Far" /\
  Query(IF ~IsVal(ev) THEN {"fails"}
        ELSE C("length", Abs(ev.r.n - 1000 * SumSq(ev.d, Len(ev.d))) <= 1)
             \cup C("displace", ev.r.d = [i \in 1..Len(ev.d) |-> 1000 * ev.d[i]])
             \cup LET c == ev.r.cs[1]
                      v == ev.r.cs[2]
                  IN CASE Len(ev.d) = 1 /\ ev.d[1] # 0 -> C("azimuth", v = 0 /\ c = IF ev.d[1] > 0 THEN 1000 ELSE -1000)
                       [] Len(ev.d) = 2 /\ ev.d # <<0, 0>> ->
                            C("azimuth", /\ Abs(c * ev.d[2] - v * ev.d[1]) <= Abs(ev.d[1]) + Abs(ev.d[2])
                                         /\ c * ev.d[1] + v * ev.d[2] > 0)
                       [] OTHER -> {})
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = [prec |-> 4, st |-> <<>>]
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             \/ SetPrec(ev) \/ New(ev) \/ Ends(ev) \/ Flip(ev) \/ Cmp(ev) \/ Foreign(ev) \/ Opp(ev)
             \/ Length(ev) \/ Tilt(ev) \/ Far(ev) \/ Displace(ev) \/ Azimuth(ev) \/ (ev.a = "Abort" /\ Query({"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
