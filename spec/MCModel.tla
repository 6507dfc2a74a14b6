------------------------------- MODULE MCModel -------------------------------
(* Design run: the Hamiltonian is assembled bond by bond, in every order and  *)
(* with every orientation of the bonds; the result does not depend on it, is  *)
(* Hermitian, keeps the particle numbers unless it pairs, and renumbering the *)
(* modes permutes it up to fermion signs.                                     *)
EXTENDS Model, Json
VARIABLES w, todo, acc
vars == <<w, todo, acc>>
SQ1 == <<<<1>>>>
SQ == <<<<1, 0>>, <<0, 1>>>>
HX == <<<<2, 1>>, <<1, 2>>>>
Clusters == { [d |-> 1, G |-> SQ1, P |-> <<<<0>>>>, V |-> <<<<1>>>>],
              [d |-> 1, G |-> SQ1, P |-> <<<<0>>, <<1>>>>, V |-> <<<<2>>>>],
              [d |-> 1, G |-> SQ1, P |-> <<<<0>>, <<1>>, <<2>>>>, V |-> <<<<3>>>>],
              [d |-> 1, G |-> SQ1, P |-> <<<<0>>, <<1>>>>, V |-> <<<<3>>>>],
              [d |-> 2, G |-> SQ, P |-> <<<<0, 0>>, <<1, 0>>>>, V |-> <<<<2, 0>>, <<0, 1>>>>],
              [d |-> 2, G |-> SQ, P |-> <<<<0, 0>>, <<1, 0>>>>, V |-> <<<<1, 1>>, <<1, -1>>>>],
              [d |-> 2, G |-> HX, P |-> <<<<0, 0>>, <<1, 0>>>>, V |-> <<<<2, 0>>, <<0, 1>>>>],
              [d |-> 2, G |-> HX, P |-> <<<<0, 0>>>>, V |-> <<<<1, 0>>, <<0, 1>>>>] }
Mdl(k, t, V, D, U, mu) == [kind |-> k, orb |-> 1, t |-> t, ti |-> [x \in 1..Len(t) |-> 0], tx |-> [x \in 1..Len(t) |-> 0],
                           sf |-> [x \in 1..Len(t) |-> 0], V |-> V, D |-> D, U |-> U, W |-> 0, y |-> 0, mu |-> mu]
Flux(m, ti) == [m EXCEPT !.ti = ti]
Models == { Mdl("fermion", <<-16>>, <<0>>, <<0>>, 128, -64), Mdl("fermion", <<-16>>, <<8>>, <<0>>, 64, 0),
            Mdl("fermion", <<-16>>, <<0>>, <<4>>, 32, 0), Mdl("spinless", <<-16>>, <<24>>, <<0>>, 0, 8),
            Mdl("spinless", <<-16, 8>>, <<24, 0>>, <<0, 0>>, 0, 0),
            Flux(Mdl("spinless", <<-16>>, <<24>>, <<0>>, 0, 0), <<8>>), Flux(Mdl("spinless", <<0, 4>>, <<0, 0>>, <<0, 0>>, 0, 8), <<16, -8>>),
            Flux(Mdl("fermion", <<-16>>, <<0>>, <<0>>, 32, 0), <<4>>),
            [Mdl("fermion", <<-16>>, <<0>>, <<0>>, 64, 0) EXCEPT !.sf = <<8>>],
            [Mdl("spinless", <<-16>>, <<4>>, <<0>>, 0, 8) EXCEPT !.orb = 2, !.tx = <<8>>, !.ti = <<2>>, !.W = 24, !.y = 4],
            [Mdl("fermion", <<-16>>, <<0>>, <<0>>, 64, 0) EXCEPT !.orb = 2, !.tx = <<4>>, !.W = 24, !.y = -8] }
Lof(c) == Make(c.d, c.G, c.P, c.V)
SlotsOf(m, N) == (1..N) \X Modes(m.kind) \X Orbs(m)
Width(m) == Cardinality(Modes(m.kind)) * m.orb
Local(m, x) == Cardinality(Modes(m.kind)) * x[3] + x[2]
PosOf(m, N, how) == [x \in SlotsOf(m, N) |->
   CASE how = 1 -> Width(m) * (x[1] - 1) + Local(m, x) [] how = 2 -> N * Local(m, x) + x[1] - 1
     [] how = 3 -> (Width(m) * N) - 1 - (Width(m) * (x[1] - 1) + Local(m, x))]
Subsets(m, N) == SUBSET (0..(N * Width(m) - 1))
Tasks(l, m) == UNION {{<<n, e[1], e[2], e[3], e[4]>> : e \in Ends(l, n)} : n \in 1..Len(m.t)}
\* a bond may be taken from either end
StringsOf(m, b, swap, pos) ==
  LET x == Live(IF swap THEN BondStrings(m, b[1], b[4], b[3], -b[5]) ELSE BondStrings(m, b[1], b[3], b[4], b[5]))
  IN Listing({<<0, 0, y>> : y \in x}, pos)
Onsite(l, m, pos) == Listing(UNION {{<<0, i, x>> : x \in Live(SiteStrings(m, i))} : i \in 1..Len(l.P)}, pos)
Init == \E c \in Clusters, m \in Models, how \in {1, 2, 3} :
          LET l == Lof(c)
              pos == PosOf(m, Len(c.P), how)
          IN /\ Width(m) * Len(c.P) <= 6
             /\ w = [c |-> c, m |-> m, how |-> how] /\ todo = Tasks(l, m)
             /\ Cardinality(Tasks(l, m)) <= 6
             /\ acc = LET o == Onsite(l, m, pos) IN TLCEval([S \in Subsets(m, Len(c.P)) |-> Images(o, Len(o), S, <<>>)])
Next == \E b \in todo, swap \in BOOLEAN :
          \* one order is followed by representatives of equal length; all orders meet in the same subset
          /\ LET st == StringsOf(w.m, b, swap, PosOf(w.m, Len(w.c.P), w.how))
             IN acc' = TLCEval([S \in DOMAIN acc |-> Images(st, Len(st), S, acc[S])])
          /\ todo' = todo \ {b} /\ UNCHANGED w
Spec == Init /\ [][Next]_vars
Clean(f) == [T \in {x \in DOMAIN f : f[x] # CZero} |-> f[T]]
Done == todo = {}
FullH(how) == LET l == Lof(w.c)
                  pos == PosOf(w.m, Len(w.c.P), how)
                  st == Listing(AllStrings(l, w.m), pos)
              IN TLCEval([S \in Subsets(w.m, Len(w.c.P)) |-> Column(st, S)])
OrderFree == Done => \E H \in {FullH(w.how)} : \A S \in DOMAIN acc : Clean(acc[S]) = H[S]
At(f, T) == IF T \in DOMAIN f THEN f[T] ELSE CZero
Hermitian == Done => \A S \in DOMAIN acc : \A T \in DOMAIN acc[S] : acc[S][T] = CConj(At(acc[T], S))
NUp(S, how) == Cardinality({x \in SlotsOf(w.m, Len(w.c.P)) : x[2] = 1 /\ PosOf(w.m, Len(w.c.P), how)[x] \in S})
Flipping == \E n \in 1..Len(w.m.sf) : w.m.sf[n] # 0
Paired == \E n \in 1..Len(w.m.D) : w.m.D[n] # 0
Conserved == (Done /\ ~Paired) => \A S \in DOMAIN acc : \A T \in DOMAIN Clean(acc[S]) :
                Cardinality(T) = Cardinality(S) /\ (~Flipping => NUp(T, w.how) = NUp(S, w.how))
Parity == Done => \A S \in DOMAIN acc : \A T \in DOMAIN Clean(acc[S]) : (Cardinality(T) - Cardinality(S)) % 2 = 0
Permuted == Done => \E H \in {FullH(1)} :
  LET p1 == PosOf(w.m, Len(w.c.P), 1)
      p2 == PosOf(w.m, Len(w.c.P), w.how)
      p == [a \in {p1[x] : x \in DOMAIN p1} |-> p2[CHOOSE x \in DOMAIN p1 : p1[x] = a]]
  IN \A S \in DOMAIN H : \A T \in DOMAIN H[S] :
       At(acc[MoveS(S, p)], MoveS(T, p)) = IF SignOf(S, p) = SignOf(T, p) THEN H[S][T] ELSE CNeg(H[S][T])
\* the order of assembly does not matter: one representative order is enough to see all subsets
Emit == (Cardinality(todo) = Cardinality(Tasks(Lof(w.c), w.m)))
        => PrintT("GEN " \o ToJson([g |-> "model", c |-> w.c, m |-> w.m, how |-> w.how]))
=============================================================================
