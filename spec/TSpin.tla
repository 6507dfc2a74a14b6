-------------------------------- MODULE TSpin --------------------------------
(* Recorded spin sessions against Spin. Header: tabs = site numberings        *)
(* [n |-> number of spins, m |-> <<site, position>> list].                    *)
EXTENDS Spin, Fock, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
TabN(t) == Trace[s].tabs[t].n
TabF(t) == LET L == Trace[s].tabs[t].m IN
           [x \in {L[i][1] : i \in 1..Len(L)} |-> L[CHOOSE i \in 1..Len(L) : L[i][1] = x][2]]
Place(ops, f) == [i \in 1..Len(ops) |-> <<f[ops[i][1]], ops[i][2]>>]
Sop(si, ty) == [k |-> "sop", ops |-> <<<<si, ty>>>>, co |-> DOne]
Sint(ops, co) == [k |-> "sint", ops |-> ops, co |-> co]

Done(bad) == Report(s, k, bad)
Query(bad) == UNCHANGED env /\ Done(bad)
Same(o, v) == C("kind", v.k = o.k) \cup C("factors", SameWord(v.ops, o.ops)) \cup C("coeff", v.co = o.co)
MakeObj(ev, o) == /\ env' = (ev.h :> o) @@ env
                  /\ Done(IF IsVal(ev) THEN Same(o, ev.r) ELSE {"fails"})
NewSop(ev)  == ev.a = "Sop" /\ MakeObj(ev, Sop(ev.si, ev.ty))
NewSint(ev) == ev.a = "Sint" /\ MakeObj(ev, Sint(ev.ops, ev.co))
DoMul(ev) == /\ ev.a = "Mul"
  /\ IF ev.lk = "bad" \/ ev.rk = "bad" THEN Query(C("not-refused", IsErr(ev, {"TypeError"})))
     ELSE IF ev.lk = "c" THEN MakeObj(ev, Sint(env[ev.rh].ops, DMul(ev.lc, env[ev.rh].co)))
     ELSE IF ev.rk = "c" THEN MakeObj(ev, Sint(env[ev.lh].ops, DMul(env[ev.lh].co, ev.rc)))
     ELSE MakeObj(ev, Sint(env[ev.lh].ops \o env[ev.rh].ops, DMul(env[ev.lh].co, env[ev.rh].co)))
DoDag(ev) == ev.a = "Dag" /\
  MakeObj(ev, [env[ev.x] EXCEPT !.ops = SDagOps(@), !.co = DConj(@)])
DoDerive(ev) == ev.a = "Derive" /\
  LET p == env[ev.x].ops[1] IN
  MakeObj(ev, Sop(IF ev.si = -1 THEN p[1] ELSE ev.si, IF ev.ty = "" THEN p[2] ELSE ev.ty))
DoSetCo(ev) == ev.a = "SetCo" /\
  IF ev.bad THEN Query(C("accepts-bad-coeff", ev.r.t = "err"))
  ELSE env' = [env EXCEPT ![ev.x].co = ev.co] /\ Done(C("fails", IsVal(ev)))
DoIsing(ev) == ev.a = "TwoSpin" /\
  MakeObj(ev, Sint(<<<<ev.s0, ev.t0>>, <<ev.s1, ev.t1>>>>, ev.co))
\* any list of interactions whose matrices sum to J S_i.S_j
RECURSIVE SumMats(_, _, _)
SumMats(ts, f, n) == IF ts = <<>> THEN {}
  ELSE MAdd(SMat(Place(Head(ts).ops, f), Head(ts).co, n), SumMats(Tail(ts), f, n))
DoHeis(ev) == ev.a = "Heis" /\
  LET f == (ev.s0 :> 0) @@ (ev.s1 :> 1)
      ok == IsVal(ev) /\ \A i \in 1..Len(ev.r.objs) : ev.r.objs[i].k = "sint" /\ SitesOf(ev.r.objs[i].ops) \subseteq {ev.s0, ev.s1}
  IN /\ env' = IF ok THEN [h \in {ev.hs[i] : i \in 1..Len(ev.r.objs)} |->
                             LET v == ev.r.objs[CHOOSE i \in 1..Len(ev.r.objs) : ev.hs[i] = h]
                             IN Sint(v.ops, v.co)] @@ env
               ELSE env
     /\ Done(IF ~IsVal(ev) THEN {"fails"} ELSE IF ~ok THEN {"kind"}
             ELSE C("heisenberg", SumMats(ev.r.objs, f, 2) = SDot(f[ev.s0], f[ev.s1], ev.co, 2)))
DoHeisMat(ev) == ev.a = "HeisMat" /\
  LET f == TabF(ev.tb) IN
  Query(IF ~IsVal(ev) THEN {"fails"}
        ELSE C("heisenberg-matrix", SetOf(ev.r.en) = SDot(f[ev.s0], f[ev.s1], ev.co, TabN(ev.tb))))
MatRes(ev, m, n) == IF ~IsVal(ev) THEN {"fails"}
  ELSE C("entries", SetOf(ev.r.en) = m) \cup C("shape", ev.r.sh = <<Pow2(n), Pow2(n)>>)
DoMat(ev) == ev.a = "Mat" /\
  LET o == IF ev.hasco THEN [env[ev.x] EXCEPT !.co = ev.co] ELSE env[ev.x]
      f == TabF(ev.tb)
  IN /\ env' = [env EXCEPT ![ev.x] = o]
     /\ Done(IF ~(SitesOf(o.ops) \subseteq DOMAIN f) THEN C("unknown-site", IsErr(ev, {"KeyError"}))
             ELSE MatRes(ev, SMat(Place(o.ops, f), o.co, TabN(ev.tb)), TabN(ev.tb)))
\* the static functions take positions
DoFMat(ev) == ev.a = "FMat" /\ Query(MatRes(ev, SMat(ev.ops, ev.co, ev.n), ev.n))
DoLMat(ev) == ev.a = "LMat" /\ Query(MatRes(ev, SMat(<<<<0, env[ev.x].ops[1][2]>>>>, DOne, 1), 1))
DoObs(ev) == ev.a = "Obs" /\ Query(IF IsVal(ev) THEN Same(env[ev.x], ev.r) ELSE {"fails"})
DoRel(ev) == ev.a \in {"Conj", "SameSite"} /\
  Query(IF ev.bad THEN C("not-refused", IsErr(ev, {"TypeError"}))
        ELSE IF ~IsVal(ev) THEN {"fails"}
        ELSE LET p == env[ev.x].ops[1]
                 q == env[ev.y].ops[1]
             IN C("answer", ev.r.b = (IF ev.a = "Conj" THEN p = <<q[1], SFlipType(q[2])>> ELSE p[1] = q[1])))

\* Schwinger form: terms as [ops |-> <<site, spin, orbit, type>> list, co]
RECURSIVE SumFermi(_, _, _)
SumFermi(ts, g, B) == IF ts = <<>> THEN {}
  ELSE MAdd(Denote([i \in 1..Len(Head(ts).ops) |-> <<g[Head(ts).ops[i][1], Head(ts).ops[i][2]], Head(ts).ops[i][4]>>],
                   Head(ts).co, B, B).m, SumFermi(Tail(ts), g, B))
DoSchw(ev) == ev.a = "Schw" /\
  LET o == env[ev.x]
      sites == SitesOf(o.ops)
      n == Cardinality(sites)
      f == [st \in sites |-> Cardinality({t \in sites : t < st})]
      g == [p \in sites \X {0, 1} |-> 2 * f[p[1]] + p[2]]
      \* spin 1 is up; one fermion per site
      B == [r \in 1..Pow2(n) |-> {2 * i + 1 - SBit(r - 1, i) : i \in 0..(n - 1)}]
      ts == ev.r.terms
      local == \A i \in 1..Len(ts) : /\ ts[i].k = "term"
                 /\ \A j \in 1..Len(ts[i].ops) : LET p == ts[i].ops[j] IN
                       p[1] \in sites /\ p[2] \in {0, 1} /\ p[3] = 0 /\ p[4] \in {CR, AN}
  IN Query(IF ~IsVal(ev) THEN {"fails"}
           ELSE IF ~local THEN {"foreign-state"}
           ELSE C("schwinger", SumFermi(ts, g, B) = SMat(Place(o.ops, f), o.co, n)))
\* the same through the fermion matrices: base = occupied positions of the kets,
\* st = <<site, spin, position>>, order = site numbering of the spin basis
DoSchwMat(ev) == ev.a = "SchwMat" /\
  LET o == env[ev.x]
      f == TabF(ev.tb)
      n == TabN(ev.tb)
      up(b, p) == \E i \in 1..Len(ev.st) : ev.st[i][2] = 1 /\ ev.st[i][1] = p /\ ev.st[i][3] \in b
      idx == [r \in 1..Len(ev.base) |->
                LET b == SetOf(ev.base[r])
                    RECURSIVE acc(_)
                    acc(j) == IF j = n THEN 0 ELSE acc(j + 1) + (IF up(b, j) THEN 0 ELSE Pow2(j))
                IN acc(0)]
      got == {<<idx[e[1] + 1], idx[e[2] + 1], e[3]>> : e \in SetOf(ev.r.en)}
  IN Query(IF ~IsVal(ev) THEN {"fails"}
           ELSE C("schwinger-matrix", got = SMat(Place(o.ops, f), o.co, n)))

(* totals and averages *)
DoTot(ev) == ev.a = "Tot" /\
  Query(IF ev.bad THEN C("not-refused", ev.r.t = "err")
        ELSE IF ~IsVal(ev) THEN {"fails"}
        ELSE LET dim == Pow2(ev.n) IN
             C("total-x", SetOf(ev.r.x.en) = TotX(ev.n)) \cup C("total-y", SetOf(ev.r.y.en) = TotY(ev.n))
             \cup C("total-z", SetOf(ev.r.z.en) = TotZ(ev.n))
             \cup C("shape", <<ev.r.x.sh, ev.r.y.sh, ev.r.z.sh>> = <<<<dim, dim>>, <<dim, dim>>, <<dim, dim>>>>))
KetF(ev) == [b \in 0..(ev.dim - 1) |-> IF \E i \in 1..Len(ev.ket) : ev.ket[i][1] = b
               THEN ev.ket[CHOOSE i \in 1..Len(ev.ket) : ev.ket[i][1] = b][2] ELSE DZero]
\* logged averages are multiplied by the squared norm of the ket
DoSAvg(ev) == ev.a = "SAvg" /\
  Query(IF ~IsVal(ev) THEN {"fails"}
        ELSE LET v == KetF(ev) IN
             C("S2", ev.r.s2 = TotS2(ev.n, v)) \cup C("Sx", ev.r.sx = Expect(TotX(ev.n), v))
             \cup C("Sy", ev.r.sy = Expect(TotY(ev.n), v)) \cup C("Sz", ev.r.sz = Expect(TotZ(ev.n), v))
             \cup C("ket-changed", ev.r.same))
DoQAvg(ev) == ev.a = "QAvg" /\
  Query(IF ~IsVal(ev) THEN {"fails"}
        ELSE C("average", ev.r.v = Expect(SetOf(ev.op), KetF(ev))) \cup C("ket-changed", ev.r.same))

(* many spins: some columns, each a list of <<row, value>> *)
GotCol(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
BCol(ops, co, b) == LET im == SActAll(ops, b) IN {m \in {<<im.b, DMul(co, im.c)>>} : m[2] # DZero}
\* every spin of the word alive in one, the other or both of its states
Lives(ops, n, co) ==
  LET st == SitesOf(ops)
      ok(p) == Cardinality({d \in {0, 1} : SActAll(OfSite(ops, p), d * Pow2(p)).c # DZero})
      RECURSIVE Prod(_)
      Prod(S) == IF S = {} THEN 1 ELSE LET p == CHOOSE p \in S : TRUE IN ok(p) * Prod(S \ {p})
  IN IF co = DZero THEN 0 ELSE Pow2(n - Cardinality(st)) * Prod(st)
DoBMat(ev) == ev.a = "BMat" /\
  Query(IF ~IsVal(ev) THEN {"fails"}
        ELSE C("shape", ev.r.sh = <<Pow2(ev.n), Pow2(ev.n)>>)
             \cup C("columns", \A i \in 1..Len(ev.cols) : GotCol(ev.r.cols[i]) = BCol(ev.ops, ev.co, ev.cols[i]))
             \cup C("entry-count", ev.r.nnz = Lives(ev.ops, ev.n, ev.co)))
DoBTot(ev) == ev.a = "BTot" /\
  Query(IF ~IsVal(ev) THEN {"fails"}
        ELSE LET fl(b, up, dn) == {<<SFlip(b, i), IF SBit(b, i) = 1 THEN dn ELSE up>> : i \in 0..(ev.n - 1)}
                 zz(b) == {m \in {<<b, DNorm(ev.n - 2 * Downs(b, ev.n), 0, 1)>>} : m[2] # DZero}
                 I == 1..Len(ev.cols)
             IN C("total-x", \A i \in I : GotCol(ev.r.x[i]) = fl(ev.cols[i], Half, Half))
                \cup C("total-y", \A i \in I : GotCol(ev.r.y[i]) = fl(ev.cols[i], <<0, 1, 1>>, <<0, -1, 1>>))
                \cup C("total-z", \A i \in I : GotCol(ev.r.z[i]) = zz(ev.cols[i]))
                \cup C("shape", \A i \in 1..3 : ev.r.sh[i] = <<Pow2(ev.n), Pow2(ev.n)>>))
\* averages of sparse kets, times the squared norm: S^2 = sum of exchanges of pairs + n(4 - n)/4
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN DZero ELSE LET x == CHOOSE x \in S : TRUE IN DAdd(f[x], SumOver(S \ {x}, f))
DoBAvg(ev) == ev.a = "BAvg" /\
  \E B \in {{ev.ket[i][1] : i \in 1..Len(ev.ket)}} :
  \E v \in {TLCEval([b \in B |-> ev.ket[CHOOSE i \in 1..Len(ev.ket) : ev.ket[i][1] = b][2]])} :
  LET n == ev.n
      P == {q \in (0..(n - 1)) \X (0..(n - 1)) : q[1] < q[2]}
      to(b, c, w) == IF c \in B THEN DMul(DConj(v[c]), DMul(w, v[b])) ELSE DZero
      swap(b, q) == IF SBit(b, q[1]) = SBit(b, q[2]) THEN b ELSE SFlip(SFlip(b, q[1]), q[2])
      diag(b) == DMul(DNorm(n * (4 - n), 0, 2), to(b, b, DOne))
      s2(b) == DAdd(diag(b), SumOver(P, [q \in P |-> to(b, swap(b, q), DOne)]))
      sx(b) == SumOver(0..(n - 1), [i \in 0..(n - 1) |-> to(b, SFlip(b, i), Half)])
      sy(b) == SumOver(0..(n - 1), [i \in 0..(n - 1) |-> to(b, SFlip(b, i), IF SBit(b, i) = 1 THEN <<0, -1, 1>> ELSE <<0, 1, 1>>)])
      sz(b) == to(b, b, DNorm(n - 2 * Downs(b, n), 0, 1))
  IN Query(IF ~IsVal(ev) THEN {"fails"}
        ELSE C("S2", ev.r.s2 = SumOver(B, [b \in B |-> s2(b)])) \cup C("Sx", ev.r.sx = SumOver(B, [b \in B |-> sx(b)]))
             \cup C("Sy", ev.r.sy = SumOver(B, [b \in B |-> sy(b)])) \cup C("Sz", ev.r.sz = SumOver(B, [b \in B |-> sz(b)])))

Init == s \in 1..Len(Trace) /\ k = 1 /\ env = <<>>
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             \/ NewSop(ev) \/ NewSint(ev) \/ DoMul(ev) \/ DoDag(ev) \/ DoDerive(ev) \/ DoSetCo(ev)
             \/ DoIsing(ev) \/ DoHeis(ev) \/ DoHeisMat(ev) \/ DoMat(ev) \/ DoFMat(ev) \/ DoLMat(ev)
             \/ DoBMat(ev) \/ DoBTot(ev) \/ DoBAvg(ev)
             \/ DoObs(ev) \/ DoRel(ev) \/ DoSchw(ev) \/ DoSchwMat(ev) \/ DoTot(ev) \/ DoSAvg(ev) \/ DoQAvg(ev)
             \/ (ev.a = "Abort" /\ Query({"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
