-------------------------------- MODULE Text --------------------------------
(* Text forms. Coordinates are [k |-> "i" | "f", v |-> value in 10^-6];       *)
(* objects are records tagged by c; the LaTeX forms are composed as strings.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE P10(_)
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
RECURSIVE Pad(_, _)
Pad(f, d) == IF d > 1 /\ f < P10(d - 1) THEN "0" \o Pad(f, d - 1) ELSE ToString(f)
RECURSIVE Frac(_, _)
Frac(f, d) == IF d > 1 /\ (f % 10) = 0 THEN Frac(f \div 10, d - 1) ELSE Pad(f, d)
\* shortest decimal form of a value in 10^-6, as a float is written
FloatText(m) ==
  LET a == Abs(m)
      sg == IF m < 0 THEN "-" ELSE ""
  IN sg \o (IF a > 0 /\ a < 10 THEN ToString(a) \o "e-06"
            ELSE IF a > 0 /\ a < 100
                 THEN ToString(a \div 10) \o (IF (a % 10) = 0 THEN "" ELSE "." \o ToString(a % 10)) \o "e-05"
            ELSE ToString(a \div 1000000) \o "." \o Frac(a % 1000000, 6))
\* nearest multiple of 10^-nd; halves do not occur in what is recorded
Half(m, nd) == nd < 6 /\ 2 * (Abs(m) % P10(6 - nd)) = P10(6 - nd)
RoundTo(m, nd) ==
  LET u == P10(6 - nd)
      a == (Abs(m) + u \div 2) \div u
  IN IF m < 0 THEN -(a * u) ELSE a * u
CoordText(x, nd) == IF x.k = "i" THEN ToString(x.v \div 1000000) ELSE FloatText(RoundTo(x.v, nd))
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN "" ELSE q[1] \o Concat(Tail(q))

\* options: idx (a number, or -1), tab (sequence of sites numbered from 0; <<>> for none),
\* nd, arrow, orb. The library's defaults are
Default == [idx |-> -1, tab |-> <<>>, nd |-> 4, arrow |-> TRUE, orb |-> FALSE]
Values(site) == [i \in 1..Len(site) |-> site[i].v]
InTab(tab, site) == {i \in 1..Len(tab) : Values(tab[i]) = Values(site)}
SiteTex(site, o) ==
  IF o.idx >= 0 THEN ToString(o.idx)
  ELSE IF o.tab # <<>> THEN ToString((CHOOSE i \in InTab(o.tab, site) : TRUE) - 1)
  ELSE "(" \o Join([i \in 1..Len(site) |-> CoordText(site[i], o.nd)], ",") \o ")"
Arrow(sp) == IF sp = 0 THEN "\\downarrow" ELSE "\\uparrow"
SpinTex(sp, o, math) == IF o.arrow /\ sp \in {0, 1} THEN IF math THEN "$" \o Arrow(sp) \o "$" ELSE Arrow(sp)
                        ELSE ToString(sp)
StateTex(x, o, math) == SiteTex(x.site, o) \o "," \o SpinTex(x.spin, o, math)
                        \o (IF o.orb THEN "," \o ToString(x.orbit) ELSE "")
\* what stands between the dollars for one operator
OpTex(x, o) ==
  IF x.c = "aoc" THEN "c_{" \o StateTex(x, o, FALSE) \o "}" \o (IF x.ot = 1 THEN "^{\\dagger}" ELSE "")
  ELSE IF x.c = "num" THEN "n_{" \o StateTex(x, o, FALSE) \o "}"
  ELSE "S_{" \o SiteTex(x.site, o) \o "}^{" \o x.st \o "}"
\* coefficients are [k |-> "i" | "f" | "c", re, im] in quarters
Part(q) == IF (q % 4) = 0 THEN ToString(q \div 4) ELSE FloatText(q * 250000)
CoeffText(z) ==
  IF z.k = "i" THEN ToString(z.re \div 4)
  ELSE IF z.k = "f" THEN FloatText(z.re * 250000)
  ELSE IF z.re = 0 THEN Part(z.im) \o "j"
  ELSE "(" \o Part(z.re) \o (IF z.im < 0 THEN "" ELSE "+") \o Part(z.im) \o "j)"
\* spin factors on different sites commute and are kept in the order of their sites
Trunc(v) == IF v < 0 THEN -((-v) \div 100) ELSE v \div 100
RECURSIVE Below(_, _)
Below(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF Trunc(a[1].v) # Trunc(b[1].v) THEN Trunc(a[1].v) < Trunc(b[1].v) ELSE Below(Tail(a), Tail(b))
RECURSIVE Insert(_, _)
Insert(x, q) == IF q = <<>> THEN <<x>> ELSE IF Below(x.site, q[Len(q)].site)
                THEN Append(Insert(x, SubSeq(q, 1, Len(q) - 1)), q[Len(q)]) ELSE Append(q, x)
RECURSIVE SortOps(_)
SortOps(q) == IF q = <<>> THEN <<>> ELSE Insert(q[Len(q)], SortOps(SubSeq(q, 1, Len(q) - 1)))
Factors(x) == IF x.ops # <<>> /\ x.ops[1].c = "spin" THEN SortOps(x.ops) ELSE x.ops
Tex(x, o) ==
  CASE x.c = "site" -> SiteTex(x.site, o)
    [] x.c = "state" -> StateTex(x, o, TRUE)
    [] x.c \in {"aoc", "num", "spin"} -> "$" \o OpTex(x, o) \o "$"
    [] x.c = "term" -> "$" \o CoeffText(x.co) \o Concat([i \in 1..Len(x.ops) |-> OpTex(Factors(x)[i], o)]) \o "$"
\* the rendering is unambiguous to say: no half, all sites in the table, no rounding to minus zero
Sites(x) == IF x.c = "term" THEN {x.ops[i].site : i \in 1..Len(x.ops)} ELSE {x.site}
Renderable(x, o) ==
  \A st \in Sites(x) :
    IF o.idx >= 0 THEN TRUE
    ELSE IF o.tab # <<>> THEN InTab(o.tab, st) # {}
    ELSE \A i \in 1..Len(st) : ~Half(st[i].v, o.nd) /\ (st[i].v < 0 => (st[i].k = "i" \/ RoundTo(st[i].v, o.nd) # 0))
\* what the official form read back must be: kinds of numbers do not matter, values do
Meaning(x) ==
  CASE x.c = "site" -> <<"site", Values(x.site)>>
    [] x.c = "state" -> <<"state", Values(x.site), x.spin, x.orbit>>
    [] x.c = "aoc" -> <<"aoc", x.ot, Values(x.site), x.spin, x.orbit>>
    [] x.c = "num" -> <<"num", Values(x.site), x.spin, x.orbit>>
    [] x.c = "spin" -> <<"spin", x.st, Values(x.site)>>
    [] x.c = "bond" -> <<"bond", Values(x.p), Values(x.q), x.dir>>
    [] x.c = "line" -> <<"line", Values(x.p), Values(x.q)>>
    [] x.c = "space" -> <<"space", x.specs>>
    [] x.c = "simple" -> <<"simple", x.states, x.n>>
=============================================================================
