------------------------------- MODULE MCText -------------------------------
(* Design run: a product of operators grows factor by factor while its LaTeX  *)
(* form is composed; different objects keep different forms.                  *)
EXTENDS Text, Json
CONSTANTS MaxOps
VARIABLES kind, o, ops, co, tex
vars == <<kind, o, ops, co, tex>>
f(v) == [k |-> "f", v |-> v]
i(v) == [k |-> "i", v |-> v * 1000000]
SitePool == {<<i(0), i(1)>>, <<f(250000), f(-1500000)>>, <<f(333333), f(666667)>>, <<i(12), i(3)>>}
Tab == <<<<f(250000), f(-1500000)>>, <<i(0), i(1)>>, <<i(12), i(3)>>, <<f(333333), f(666667)>>>>
Opts == {[idx |-> x, tab |-> t, nd |-> n, arrow |-> a, orb |-> b] :
           x \in {-1, 7}, t \in {<<>>, Tab}, n \in {1, 4, 6}, a \in BOOLEAN, b \in BOOLEAN}
Valid(p) == (p.idx = 7 => (p.tab = <<>> /\ p.nd = 4)) /\ (p.tab # <<>> => p.nd = 4)
Pool(c) == IF c = "sterm" THEN {[c |-> "spin", st |-> t, site |-> s] : t \in {"x", "z", "p"}, s \in SitePool}
           ELSE {[c |-> "aoc", ot |-> t, site |-> s, spin |-> sp, orbit |-> ob] :
                   t \in {0, 1}, s \in SitePool, sp \in {0, 1, 2}, ob \in {0, 1}}
Coeffs == {[k |-> "i", re |-> -8, im |-> 0], [k |-> "f", re |-> 6, im |-> 0], [k |-> "c", re |-> 0, im |-> -3],
           [k |-> "c", re |-> 5, im |-> 8]}
Term(q) == [c |-> "term", co |-> co, ops |-> q]
Init == /\ kind \in {"pterm", "sterm"} /\ o \in {p \in Opts : Valid(p)} /\ co \in Coeffs
        /\ ops = <<>> /\ tex = CoeffText(co)
Next == /\ Len(ops) < MaxOps
        /\ \E x \in Pool(kind) : ops' = Append(ops, x) /\ tex' = tex \o OpTex(x, o)
        /\ UNCHANGED <<kind, o, co>>
Spec == Init /\ [][Next]_vars
\* factors of a particle term keep the given order; those of a spin term are a permutation of it
Whole == kind = "pterm" => Tex(Term(ops), o) = "$" \o tex \o "$"
Ordered == kind = "sterm" =>
  LET q == SortOps(ops)
  IN /\ \A j \in 1..Len(q) - 1 : ~Below(q[j + 1].site, q[j].site)
     /\ \A j \in 1..Len(ops) : SelectSeq(ops, LAMBDA y : y.site = ops[j].site) = SelectSeq(q, LAMBDA y : y.site = ops[j].site)
\* with everything shown, one operator's form says which operator it is
Identifies == Len(ops) = 1 =>
  \A y \in Pool(kind) : (OpTex(ops[1], o) = OpTex(y, o)) =>
     /\ kind = "pterm" => (y.ot = ops[1].ot /\ y.spin = ops[1].spin /\ (o.orb => y.orbit = ops[1].orbit))
     /\ kind = "sterm" => y.st = ops[1].st
     /\ o.idx < 0 => y.site = ops[1].site
Daggered == (Len(ops) = 1 /\ kind = "pterm") =>
  LET up == [ops[1] EXCEPT !.ot = 1]
      dn == [ops[1] EXCEPT !.ot = 0]
  IN OpTex(up, o) = OpTex(dn, o) \o "^{\\dagger}"
Numbers == /\ FloatText(0) = "0.0" /\ FloatText(-1500000) = "-1.5" /\ FloatText(10) = "1e-05" /\ FloatText(25) = "2.5e-05"
           /\ FloatText(100) = "0.0001" /\ RoundTo(666667, 4) = 666700 /\ FloatText(RoundTo(-666667, 1)) = "-0.7"
Emit == (Len(ops) = MaxOps) => PrintT("GEN " \o ToJson([g |-> "tex", x |-> Term(ops), o |-> o]))
=============================================================================
