-------------------------------- MODULE Model --------------------------------
(* Lattice models: the Hamiltonian of a periodic cluster, defined from the    *)
(* bonds of the infinite lattice (one for every pair of sites up to           *)
(* translation, both ends folded into the cluster) as weighted operator       *)
(* strings acting on occupation sets, or as exchange on spin configurations.  *)
(* Weights are Gaussian integers <<re, im>> in units of 1/16. A model has     *)
(*  kind "fermion" (spin 1/2) or "spinless", orb orbits per site;             *)
(*  for the 1st, 2nd.. neighbours: t hopping, ti the imaginary part of the    *)
(*  hopping c+_i c_j along a bond whose displacement from i to j is positive  *)
(*  (its first non-zero component is), tx hopping between different orbits,   *)
(*  sf spin flip i sf c+_iu c_jd along a positive bond, V density, D singlet  *)
(*  pairing; on every site U Hubbard in each orbit, W density between orbits, *)
(*  y hybridisation of the orbits, mu potential.                              *)
EXTENDS Lattice, Fock
CZero == <<0, 0>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CNeg(x) == <<-x[1], -x[2]>>
CConj(x) == <<x[1], -x[2]>>
CScale(w, x) == <<w * x[1], w * x[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
\* sign of the first non-zero component
RECURSIVE SgnFrom(_, _)
SgnFrom(v, i) == IF i > Len(v) THEN 0 ELSE IF v[i] = 0 THEN SgnFrom(v, i + 1) ELSE IF v[i] > 0 THEN 1 ELSE -1
Disp(L, x) == VAdd(VSub(L.P[x[2]], L.P[x[1]]), Translate(L, x[3]))
Sgn(L, x) == SgnFrom(Disp(L, x), 1)
\* ends of the bonds of the n-th neighbours: set of <<class, i, j, sign>>
Ends(L, n) == {LET t == CHOOSE x \in c : TRUE IN <<c, t[1], t[2], Sgn(L, t)>> : c \in Classes(L, n, TRUE)}
Modes(kind) == IF kind = "fermion" THEN {0, 1} ELSE {0}
Orbs(m) == 0..(m.orb - 1)
ModesOf(L, m) == (1..Len(L.P)) \X Modes(m.kind) \X Orbs(m)
CA(x, y) == <<Append(x, CR), Append(y, AN)>>
Dens(x, y) == CA(x, x) \o CA(y, y)
Both(key, w, x, y) == {<<key, 0, w, CA(x, y)>>, <<key, 1, CConj(w), CA(y, x)>>}
Hop(m, n, sg, o, p) == IF o = p THEN <<m.t[n], sg * m.ti[n]>> ELSE <<m.tx[n], 0>>
\* the strings of one bond (i, j) of sign sg, with their adjoints
BondStrings(m, n, i, j, sg) ==
  LET A == Modes(m.kind)
      O == Orbs(m)
      u == IF sg = 1 THEN i ELSE j
      v == IF sg = 1 THEN j ELSE i
  IN UNION {Both(<<"t", a, o, p>>, Hop(m, n, sg, o, p), <<i, a, o>>, <<j, a, p>>) : a \in A, o \in O, p \in O}
     \cup {<<<<"V", a, b, o, p>>, 0, <<m.V[n], 0>>, Dens(<<i, a, o>>, <<j, b, p>>)>> : a \in A, b \in A, o \in O, p \in O}
     \cup IF m.kind # "fermion" THEN {} ELSE
       UNION {Both(<<"s", o>>, <<0, m.sf[n]>>, <<u, 1, o>>, <<v, 0, o>>) : o \in O}
       \cup UNION {LET d == <<m.D[n], 0>> IN
          {<<<<"D", o>>, 0, d, << <<i, 1, o, AN>>, <<j, 0, o, AN>> >> >>, <<<<"D", o>>, 1, CNeg(d), << <<i, 0, o, AN>>, <<j, 1, o, AN>> >> >>,
           <<<<"D*", o>>, 0, d, << <<j, 0, o, CR>>, <<i, 1, o, CR>> >> >>,
           <<<<"D*", o>>, 1, CNeg(d), << <<j, 1, o, CR>>, <<i, 0, o, CR>> >> >>} : o \in O}
\* the strings of one site
SiteStrings(m, i) ==
  LET A == Modes(m.kind)
      O == Orbs(m)
  IN {<<<<"m", a, o>>, 0, <<m.mu, 0>>, CA(<<i, a, o>>, <<i, a, o>>)>> : a \in A, o \in O}
     \cup (IF m.kind = "fermion" THEN {<<<<"U", o>>, 0, <<m.U, 0>>, Dens(<<i, 1, o>>, <<i, 0, o>>)>> : o \in O} ELSE {})
     \cup (IF m.orb = 1 THEN {} ELSE
           {<<<<"W", a, b>>, 0, <<m.W, 0>>, Dens(<<i, a, 0>>, <<i, b, 1>>)>> : a \in A, b \in A}
           \cup UNION {Both(<<"y", a>>, <<m.y, 0>>, <<i, a, 0>>, <<i, a, 1>>) : a \in A})
Live(strs) == {x \in strs : x[3] # CZero}
AllStrings(L, m) ==
  UNION {{<<n, e, x>> : x \in Live(BondStrings(m, n, e[2], e[3], e[4]))} : <<n, e>> \in
           UNION {{<<n, e>> : e \in Ends(L, n)} : n \in 1..Len(m.t)}}
  \cup UNION {{<<0, i, x>> : x \in Live(SiteStrings(m, i))} : i \in 1..Len(L.P)}
\* on numbered modes: a sequence of <<weight, string of <<position, type>>>>
Numbered(ops, pos) == [k \in 1..Len(ops) |-> <<pos[<<ops[k][1], ops[k][2], ops[k][3]>>], ops[k][4]>>]
RECURSIVE Listing(_, _)
Listing(S, pos) == IF S = {} THEN <<>>
  ELSE LET x == CHOOSE y \in S : TRUE IN <<<<x[3][3], Numbered(x[3][4], pos)>>>> \o Listing(S \ {x}, pos)
Add1(f, S, v) == IF S \in DOMAIN f THEN [f EXCEPT ![S] = CAdd(@, v)] ELSE f @@ (S :> v)
RECURSIVE Images(_, _, _, _)
Images(str, n, S, f) ==
  IF n = 0 THEN f
  ELSE LET k == ActString(str[n][2], Ket(S))
       IN Images(str, n - 1, S, IF k.ok THEN Add1(f, k.occ, IF k.sg = 1 THEN CNeg(str[n][1]) ELSE str[n][1]) ELSE f)
\* the column of H belonging to |S>: occupation set -> weight
Column(str, S) == LET f == Images(str, Len(str), S, <<>>) IN [T \in {x \in DOMAIN f : f[x] # CZero} |-> f[T]]
\* sign of |S> when modes are renumbered by p
SignOf(S, p) == Cardinality({<<a, b>> \in S \X S : a < b /\ p[a] > p[b]}) % 2
MoveS(S, p) == {p[a] : a \in S}

(* Spins: position of site i is pos[i]; a configuration is the set of downs.  *)
(* Exchange Jz, Jx, field h, and Dz the z component of the vector product     *)
(* S_i x S_j along positive bonds (clusters where such a bond joins a site    *)
(* with its own image have none).                                             *)
FlipAt(S, i) == IF i \in S THEN S \ {i} ELSE S \cup {i}
SpinBond(i, j, Jz, Jx, Dz, S) ==
  IF i = j THEN (S :> <<Jz \div 4 + Jx \div 2, 0>>)
  ELSE LET al == (i \in S) = (j \in S)
           d == IF al THEN Jz \div 4 ELSE -(Jz \div 4)
       IN IF al THEN (S :> <<d, 0>>)
          ELSE (S :> <<d, 0>>) @@ (FlipAt(FlipAt(S, i), j) :> <<Jx \div 2, IF i \in S THEN Dz \div 2 ELSE -(Dz \div 2)>>)
SpinSite(i, h, S) == (S :> <<IF i \in S THEN -(h \div 2) ELSE h \div 2, 0>>)
RECURSIVE AddAll(_, _, _)
AddAll(f, g, D) == IF D = {} THEN f ELSE LET x == CHOOSE y \in D : TRUE IN AddAll(Add1(f, x, g[x]), g, D \ {x})
RECURSIVE SumBonds(_, _, _, _, _, _, _)
SumBonds(B, pos, Jz, Jx, Dz, S, f) ==
  IF B = {} THEN f
  ELSE LET e == CHOOSE x \in B : TRUE
           g == SpinBond(pos[e[2]], pos[e[3]], Jz, Jx, e[4] * Dz, S)
       IN SumBonds(B \ {e}, pos, Jz, Jx, Dz, S, AddAll(f, g, DOMAIN g))
RECURSIVE SumShells(_, _, _, _, _, _)
SumShells(sh, m, n, pos, S, f) ==
  IF n = 0 THEN f ELSE SumShells(sh, m, n - 1, pos, S, SumBonds(sh[n], pos, m.Jz[n], m.Jx[n], m.Dz[n], S, f))
RECURSIVE SumSites(_, _, _, _, _)
SumSites(n, pos, h, S, f) == IF n = 0 THEN f
  ELSE SumSites(n - 1, pos, h, S, LET g == SpinSite(pos[n], h, S) IN AddAll(f, g, DOMAIN g))
\* m = [Jz, Jx, Dz, h]; sh[n] the bonds of the n-th neighbours
SpinColumn(sh, m, pos, S) ==
  LET f == SumSites(Len(pos), pos, m.h, S, SumShells(sh, m, Len(m.Jz), pos, S, <<>>))
  IN [T \in {x \in DOMAIN f : f[x] # CZero} |-> f[T]]
=============================================================================
