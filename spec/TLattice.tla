------------------------------- MODULE TLattice -------------------------------
(* Recorded lattice sessions. Header: lat = [d, G, P, V] (integer cluster);   *)
(* every site in an event is in the same integer frame. off = the query site  *)
(* was moved off the frame points, so it is no site of any lattice here.      *)
EXTENDS Lattice, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
H == Trace[s].lat
L0 == Make(H.d, H.G, H.P, H.V)
Query(bad) == UNCHANGED env /\ Report(s, k, bad)
OUT == {"KeyError", "RuntimeError", "ValueError"}
Site(ev) == ~ev.off /\ InLattice(env, ev.x)
DoAttr(ev) == ev.a = "Attr" /\
  Query(IF ~IsVal(ev) THEN {"fails"}
        ELSE C("points", ev.r.P = env.P) \cup C("vectors", ev.r.V = env.V)
             \cup C("counts", ev.r.n = <<Len(env.P), env.d, env.k>>))
DoDecomp(ev) == ev.a = "Decomp" /\
  Query(IF ~Site(ev) THEN C("outside-accepted", IsErr(ev, OUT))
        ELSE IF ~IsVal(ev) THEN {"fails"}
        ELSE LET p == env.P[Home(env, ev.x)] IN
             C("point", ev.r.p = p) \cup C("translation", ev.r.dr = VSub(ev.x, p))
             \cup C("argument-changed", ev.r.same))
DoIndex(ev) == ev.a = "Index" /\
  Query(LET in == IF ev.off THEN {} ELSE IF ev.fold THEN Decompositions(env, ev.x) ELSE IndexOfSite(env, ev.x)
        IN IF in = {} THEN C("outside-accepted", IsErr(ev, OUT))
           ELSE IF ~IsVal(ev) THEN {"fails"}
           ELSE C("index", {ev.r.i + 1} = in) \cup C("argument-changed", ev.r.same))
DoGetSite(ev) == ev.a = "GetSite" /\
  Query(IF ev.i < 0 \/ ev.i >= Len(env.P) THEN C("outside-accepted", ev.r.t = "err")
        ELSE IF ~IsVal(ev) THEN {"fails"} ELSE C("site", ev.r.p = env.P[ev.i + 1]))
DoInC(ev) == ev.a = "InC" /\
  Query(IF ~IsVal(ev) THEN {"fails"}
        ELSE C("membership", ev.r.b = (~ev.off /\ IndexOfSite(env, ev.x) # {})))
DoND(ev) == ev.a = "ND" /\
  Query(IF ~IsVal(ev) THEN {"fails"} ELSE C("distance", ev.r.d2 = NthD2(env, ev.n)))
\* bonds: lists of <<start, end>>
BClass(b) == LET i == CHOOSE x \in IndexOfSite(env, b[1]) : TRUE
                 j == Home(env, b[2])
             IN BondClass(i, j, TransOf(env, VSub(b[2], env.P[j])))
InCl(x) == IndexOfSite(env, x) # {}
Times(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
DoBonds(ev) == ev.a = "Bonds" /\
  Query(
    IF ~IsVal(ev) THEN {"fails"}
    ELSE IF ev.n = 0
    THEN C("on-site", /\ Len(ev.r.intra) = Len(env.P) /\ Len(ev.r.inter) = 0
                      /\ \A i \in 1..Len(env.P) : \E b \in SetOf(ev.r.intra) : b = <<env.P[i], env.P[i]>>)
    ELSE LET cs == Classes(env, ev.n, ev.only)
             intra == {c \in cs : IntraClass(env, c)}
             inter == cs \ intra
             ri == ev.r.intra
             ro == ev.r.inter
             in1 == \A i \in 1..Len(ri) : InCl(ri[i][1]) /\ InCl(ri[i][2])
             st == \A i \in 1..Len(ro) : InCl(ro[i][1])
         IN IF ~in1 THEN {"intra-leaves-cluster"}
            ELSE IF ~st THEN {"inter-starts-outside"}
            ELSE C("intra-count", Len(ri) = Cardinality(intra))
              \cup C("intra", {BClass(ri[i]) : i \in 1..Len(ri)} = intra)
              \cup C("inter-count", Len(ro) = Cardinality(inter))
              \cup (IF ev.fold
                    THEN IF \E i \in 1..Len(ro) : ~InCl(ro[i][2]) THEN {"fold-outside"}
                         ELSE LET pr == [i \in 1..Len(ro) |-> {CHOOSE x \in IndexOfSite(env, ro[i][1]) : TRUE,
                                                             CHOOSE x \in IndexOfSite(env, ro[i][2]) : TRUE}]
                                  ends(c) == {t[1] : t \in c}
                              IN C("fold", \A e \in SetOf(pr) \cup {ends(c) : c \in inter} :
                                             Times(pr, e) = Cardinality({c \in inter : ends(c) = e}))
                    ELSE IF \E i \in 1..Len(ro) : InCl(ro[i][2]) THEN {"inter-ends-inside"}
                         ELSE IF \E i \in 1..Len(ro) : ~InLattice(env, ro[i][2]) THEN {"not-a-site"}
                         ELSE C("inter", {BClass(ro[i]) : i \in 1..Len(ro)} = inter)))

(* generated clusters: header lat is the parent unit cell *)
SumDet(V) == LET m == Make(env.d, env.G, <<[i \in 1..env.d |-> 0]>>, V) IN m.det
Tiles(P, V, shifted) ==
  LET m == Make(env.d, env.G, P, V)
      shifts == IF shifted THEN {VSub(P[1], env.P[c]) : c \in 1..Len(env.P)} ELSE {[i \in 1..env.d |-> 0]}
      \* the frame unit cell has volume env.det / (completion), k translations each
  IN /\ \A i \in 1..Len(V) : IsTrans(env, V[i])
     /\ \E sh \in shifts : \A i \in 1..Len(P) : InLattice(env, VSub(P[i], sh))
     /\ Inequivalent(m)
     /\ Len(P) * env.det = Len(env.P) * m.det
DoGen(ev) == ev.a = "Gen" /\
  Query(IF ev.bad THEN C("invalid-accepted", IF ev.badname THEN IsErr(ev, {"KeyError"}) ELSE ev.r.t = "err")
        ELSE IF ~IsVal(ev) THEN {"fails"}
        ELSE IF Len(ev.r.V) # env.k \/ \E v \in SetOf(ev.r.V) \cup SetOf(ev.r.P) : Len(v) # env.d \/ \E i \in 1..env.d : Abs(v[i]) > 2000
             THEN {"not-on-parent"}
        ELSE IF ~Independent(ev.r.V, env.d) THEN {"dependent-vectors"}
        ELSE C("site-number", Len(ev.r.P) = ev.sites)
             \cup C("tiling", Tiles(ev.r.P, ev.r.V, ev.shifted))
             \cup C("vectors", ~ev.shifted => SetOf(ev.r.V) =
                       {[j \in 1..env.d |-> ev.nums[i] * env.V[i][j]] : i \in 1..env.k}))

Init == s \in 1..Len(Trace) /\ k = 1 /\ env = L0
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             \/ DoAttr(ev) \/ DoDecomp(ev) \/ DoIndex(ev) \/ DoGetSite(ev) \/ DoInC(ev) \/ DoND(ev)
             \/ DoBonds(ev) \/ DoGen(ev) \/ (ev.a = "Abort" /\ Query({"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
