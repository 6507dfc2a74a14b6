-------------------------------- MODULE TText --------------------------------
(* Recorded text forms of real objects, read back.                            *)
EXTENDS Text, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
Fine(ev, bad) == UNCHANGED env /\ Report(s, k, IF IsVal(ev) THEN bad ELSE {"fails"})
\* the official form, evaluated
DoRepr(ev) == ev.a = "Repr" /\ Fine(ev, C("other-object", ev.r.m = Meaning(ev.x)) \cup C("not-equal", ev.r.eq))
DoTex(ev) == ev.a = "Tex" /\ Fine(ev, C("latex", Renderable(ev.x, ev.o) => ev.r.s = Tex(ev.x, ev.o)))
\* drawing shows the LaTeX form
DoShow(ev) == ev.a = "Show" /\ Fine(ev, C("drawn", Renderable(ev.x, ev.o) => ev.r.s = <<Tex(ev.x, ev.o)>>))
DoTerm(ev) == ev.a = "Term" /\ Fine(ev, C("coefficient", ev.r.co = CoeffText(ev.x.co))
                 \cup C("operators", ev.r.ops = [i \in 1..Len(ev.x.ops) |-> Meaning(Factors(ev.x)[i])]))
DoTable(ev) == ev.a = "Table" /\ Fine(ev, C("rows", ev.r.rows = [i \in 1..Len(ev.objs) |-> <<ev.start + i - 1, Meaning(ev.objs[i])>>]))
DoSpace(ev) == ev.a = "Space" /\ Fine(ev,
    IF ev.x.c = "space" THEN C("content", ev.r.n = Len(ev.x.specs) /\ ev.r.specs = ev.x.specs)
    ELSE C("content", ev.r.pn = ev.x.n /\ ev.r.sn = Len(ev.x.states) /\ ev.r.states = ev.x.states))
Diff(q, p) == [i \in 1..Len(p) |-> q[i].v - p[i].v]
RECURSIVE SumSq(_)
SumSq(q) == IF q = <<>> THEN 0 ELSE q[1] * q[1] + SumSq(Tail(q))
\* lengths and displacements are compared in 10^-2, which the recorded bonds are multiples of
Centi(m) == m \div 10000
DoBond(ev) == ev.a = "Bond" /\ Fine(ev,
    LET d == Diff(ev.x.q, ev.x.p)
        dc == [i \in 1..Len(d) |-> Centi(d[i])]
    IN C("endpoints", (ev.r.p = Values(ev.x.p) /\ ev.r.q = Values(ev.x.q))
                      \/ (~ev.x.dir /\ ev.r.p = Values(ev.x.q) /\ ev.r.q = Values(ev.x.p)))
       \cup C("length", ev.r.len * ev.r.len <= SumSq(dc) /\ SumSq(dc) < (ev.r.len + 1) * (ev.r.len + 1))
       \cup C("displacement", IF ev.x.dir THEN ev.r.d = d ELSE ev.r.d = "Undefined")
       \cup C("azimuth", IF ev.x.dir THEN TRUE ELSE ev.r.az = "Undefined"))
Near(x, y, tol) == Abs(x - y) <= tol
RECURSIVE DotM(_, _)
DotM(a, b) == IF a = <<>> THEN 0 ELSE a[1] * b[1] + DotM(Tail(a), Tail(b))
DoLattice(ev) == ev.a = "Lattice" /\ Fine(ev,
    C("counts", ev.r.pn = Len(ev.P) /\ ev.r.sd = Len(ev.P[1]) /\ ev.r.td = Len(ev.V))
    \cup C("points", ev.r.P = ev.P) \cup C("vectors", ev.r.V = ev.V)
    \* P and V are integers here; the dual vectors are given in 10^-7 of 2 pi
    \cup C("duals", Len(ev.r.B) = Len(ev.V) /\ \A i, j \in 1..Len(ev.r.B) :
                       Near(DotM(ev.r.B[i], ev.V[j]), IF i = j THEN 10000000 ELSE 0, 20)))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = <<>>
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             DoRepr(ev) \/ DoTex(ev) \/ DoShow(ev) \/ DoTerm(ev) \/ DoTable(ev) \/ DoSpace(ev) \/ DoBond(ev) \/ DoLattice(ev)
             \/ (ev.a = "Abort" /\ UNCHANGED env /\ Report(s, k, {"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
