----------------------------- MODULE MCResponse -----------------------------
(* Design run: the equation of motion is the commutator with the Hamiltonian  *)
(* of the Fock machine on every ket; the Bloch matrix is Hermitian and the    *)
(* one of a larger cluster restricts to it on Bloch waves; one magnon stays   *)
(* one magnon.                                                                *)
EXTENDS Response, Json
VARIABLES w, a
vars == <<w, a>>
SQ1 == <<<<1>>>>
SQ == <<<<1, 0>>, <<0, 1>>>>
HX == <<<<2, 1>>, <<1, 2>>>>
Clusters == { [d |-> 1, G |-> SQ1, P |-> <<<<0>>>>, V |-> <<<<1>>>>],
              [d |-> 1, G |-> SQ1, P |-> <<<<0>>, <<1>>>>, V |-> <<<<2>>>>],
              [d |-> 1, G |-> SQ1, P |-> <<<<0>>, <<1>>, <<2>>>>, V |-> <<<<3>>>>],
              [d |-> 1, G |-> SQ1, P |-> <<<<0>>, <<1>>>>, V |-> <<<<3>>>>],
              [d |-> 2, G |-> SQ, P |-> <<<<0, 0>>>>, V |-> <<<<1, 0>>, <<0, 1>>>>],
              [d |-> 2, G |-> SQ, P |-> <<<<0, 0>>, <<1, 0>>>>, V |-> <<<<1, 1>>, <<1, -1>>>>],
              [d |-> 2, G |-> HX, P |-> <<<<0, 0>>, <<1, 0>>>>, V |-> <<<<2, 0>>, <<0, 1>>>>],
              [d |-> 2, G |-> <<<<6, 3>>, <<3, 6>>>>, P |-> <<<<0, 0>>, <<1, 1>>>>, V |-> <<<<2, -1>>, <<-1, 2>>>>] }
Mdl(k, t, V, D, U, mu) == [kind |-> k, orb |-> 1, t |-> t, ti |-> [x \in 1..Len(t) |-> 0], tx |-> [x \in 1..Len(t) |-> 0],
                           sf |-> [x \in 1..Len(t) |-> 0], V |-> V, D |-> D, U |-> U, W |-> 0, y |-> 0, mu |-> mu]
Models == { Mdl("fermion", <<-16>>, <<0>>, <<0>>, 128, -64), Mdl("fermion", <<-16>>, <<8>>, <<0>>, 64, 0),
            Mdl("fermion", <<-16>>, <<0>>, <<4>>, 0, 3), Mdl("fermion", <<8>>, <<12>>, <<-4>>, 16, 0),
            Mdl("spinless", <<-16>>, <<24>>, <<0>>, 0, 8), Mdl("spinless", <<-16, 8>>, <<24, 0>>, <<0, 0>>, 0, 5),
            [Mdl("spinless", <<-16, 8>>, <<24, 0>>, <<0, 0>>, 0, 5) EXCEPT !.ti = <<8, -4>>],
            [Mdl("fermion", <<-16>>, <<0>>, <<4>>, 64, 0) EXCEPT !.sf = <<8>>, !.ti = <<4>>],
            [Mdl("spinless", <<-16>>, <<4>>, <<0>>, 0, 8) EXCEPT !.orb = 2, !.tx = <<8>>, !.ti = <<2>>, !.W = 24, !.y = 4],
            [Mdl("fermion", <<-16>>, <<4>>, <<0>>, 64, 0) EXCEPT !.orb = 2, !.tx = <<4>>, !.W = 24, !.y = -8] }
Lof(c) == Make(c.d, c.G, c.P, c.V)
Width(m) == Cardinality(Modes(m.kind)) * m.orb
PosOf(m, N) == [x \in (1..N) \X Modes(m.kind) \X Orbs(m) |-> Width(m) * (x[1] - 1) + Cardinality(Modes(m.kind)) * x[3] + x[2]]
Mults(c) == IF c.d = 1 THEN {<<2>>, <<3>>} ELSE {<<2, 1>>, <<1, 2>>, <<2, 2>>}
Kaps(c) == IF c.d = 1 THEN {<<0>>, <<1>>, <<2>>, <<3>>} ELSE {<<0, 0>>, <<1, 0>>, <<2, 3>>, <<1, 1>>}
Init == /\ w \in {x \in [c : Clusters, m : Models] : Width(x.m) * Len(x.c.P) <= 6}
        /\ a = <<"start">>
Next == /\ a = <<"start">> /\ UNCHANGED w
        /\ \/ \E x \in ModesOf([P |-> w.c.P], w.m) : a' = <<"eom", x>>
           \/ w.m.kind = "spinless" /\ w.m.orb = 1 /\ \E mu \in Mults(w.c), kp \in Kaps(w.c) : a' = <<"fold", mu, kp>>
           \/ w.m.kind = "spinless" /\ w.m.orb = 1 /\ \E up \in BOOLEAN : a' = <<"magnon", up>>
Spec == Init /\ [][Next]_vars

\* formal sums of kets: occupation set -> weight
One(k, x) == IF ~k.ok THEN <<>> ELSE (k.occ :> (IF k.sg = 1 THEN CNeg(x) ELSE x))
Plus(f, g) == AddAll(f, g, DOMAIN g)
RECURSIVE Gather(_)
Gather(q) == IF q = <<>> THEN <<>> ELSE Plus(Gather(Tail(q)), Head(q))
Clean(f) == [T \in {x \in DOMAIN f : f[x] # CZero} |-> f[T]]
SeqOf(S) == LET RECURSIVE F(_)
                F(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o F(X \ {x})
            IN F(S)
\* operator string applied to a formal sum
ApplyTo(ops, f) == Gather([i \in 1..Len(SeqOf(DOMAIN f)) |->
                       LET S == SeqOf(DOMAIN f)[i] IN One(ActString(ops, Ket(S)), f[S])])
HOn(str, f) == Gather([i \in 1..Len(SeqOf(DOMAIN f)) |->
                       LET S == SeqOf(DOMAIN f)[i]
                           g == Column(str, S) IN [T \in DOMAIN g |-> CMul(g[T], f[S])]])
Neg(f) == [T \in DOMAIN f |-> CNeg(f[T])]
EomLaw == (a[1] = "eom") =>
  LET L == Lof(w.c)
      pos == PosOf(w.m, Len(w.c.P))
      str == Listing(AllStrings(L, w.m), pos)
      M == ModesOf(L, w.m)
      x == a[2]
      mo == SeqOf(M)
  IN \E K \in {Kernel(L, w.m)} :
     \A S \in SUBSET {pos[y] : y \in M} :
       LET ket == (S :> <<1, 0>>)
           c == <<<<pos[x], AN>>>>
           left == Plus(ApplyTo(c, HOn(str, ket)), Neg(HOn(str, ApplyTo(c, ket))))
           term(b) == Gather(<<One(ActString(<<<<pos[b], AN>>>>, Ket(S)), K.h[<<x, b>>]),
                        One(ActString(<<<<pos[b], CR>>, <<pos[b], AN>>, <<pos[x], AN>>>>, Ket(S)), K.W[<<x, b>>]),
                        One(ActString(<<<<pos[b], CR>>>>, Ket(S)), K.D[<<x, b>>])>>)
       IN Clean(left) = Clean(Gather([i \in 1..Len(mo) |-> term(mo[i])]))
\* (h_big v_b)_i = sum_a v_a(i) h_ab on the waves v_b(cell, j) = [j = b] i^(kap.cell)
FoldLaw == (a[1] = "fold") =>
  LET L == Lof(w.c)
      mb == Members(L, a[2])
      kb == [i \in 1..L.k |-> a[2][i] * a[3][i]]
  IN \E h \in {Bloch(L, w.m.t, w.m.ti, w.m.mu, a[3])}, H \in {Bloch(Bigger(L, a[2]), w.m.t, w.m.ti, w.m.mu, kb)} :
     /\ \A i, j \in 1..Len(L.P) : h[i][j] = <<h[j][i][1], -h[j][i][2]>>
     /\ \A b \in 1..Len(L.P), i \in 1..Len(mb) :
          LET J == {j \in 1..Len(mb) : mb[j][2] = b}
          IN CSum([j \in J |-> CMul(H[i][j], IPow(DotN(a[3], mb[j][1])))], J)
             = CMul(IPow(DotN(a[3], mb[i][1])), h[mb[i][2]][b])
MagnonLaw == (a[1] = "magnon") =>
  LET L == Lof(w.c)
      N == Len(L.P)
      ref == IF a[2] THEN {} ELSE 1..N
      m == [Jz |-> <<64>>, Jx |-> <<-32>>, Dz |-> <<w.m.ti[1]>>, h |-> 8]
      sh == <<Ends(L, 1)>>
      pos == [i \in 1..N |-> i]
  IN /\ DOMAIN SpinColumn(sh, m, pos, ref) \subseteq {ref}
     /\ \A j \in 1..N : DOMAIN SpinColumn(sh, m, pos, Flipped(ref, j)) \subseteq {Flipped(ref, i) : i \in 1..N}
     /\ \A i, j \in 1..N : Magnon(sh, m, N, ref)[i][j] = CConj(Magnon(sh, m, N, ref)[j][i])
Emit == (a[1] # "start") => PrintT("GEN " \o ToJson(
   [g |-> a[1], c |-> w.c, m |-> w.m, mult |-> IF a[1] = "fold" THEN a[2] ELSE <<>>, kap |-> IF a[1] = "fold" THEN a[3] ELSE <<>>]))
=============================================================================
