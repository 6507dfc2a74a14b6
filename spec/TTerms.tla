------------------------------- MODULE TTerms -------------------------------
(* Recorded sessions of the fermion operator algebra against Terms.           *)
(* Session header: sites (integer coordinates), tabs (state numberings: lists *)
(* of <<site, spin, orbit, position>>), bases (lists of occupied position     *)
(* lists).                                                                    *)
EXTENDS Terms, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>

Lex(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
StLt(a, b) == LET ca == Trace[s].sites[a[1]]
                  cb == Trace[s].sites[b[1]]
              IN Lex(ca, cb) \/ (ca = cb /\ Lex(<<a[2], a[3]>>, <<b[2], b[3]>>))
Tab(t) == LET L == Trace[s].tabs[t] IN
          [x \in {<<L[i][1], L[i][2], L[i][3]>> : i \in 1..Len(L)} |->
             L[CHOOSE i \in 1..Len(L) : <<L[i][1], L[i][2], L[i][3]>> = x][4]]
Basis(b) == LET B == Trace[s].bases[b] IN [r \in 1..Len(B) |-> SetOf(B[r])]

Bind(h, o) == env' = (h :> o) @@ env
Done(bad) == Report(s, k, bad)
\* expected object o against the projected answer v; terms may carry any
\* compatible class unless the caller declared one
Same(o, v, anycls) ==
  C("kind", v.k = o.k) \cup C("ops", v.ops = o.ops) \cup C("coeff", v.co = o.co)
  \cup C("class", IF o.k # "term" THEN TRUE ELSE IF anycls THEN v.cls \in CLASSES /\ CompatShape(o.ops, v.cls) ELSE v.cls = o.cls)
MakeObj(ev, o, anycls) ==
  /\ Bind(ev.h, IF anycls /\ IsVal(ev) /\ o.k = "term" THEN [o EXCEPT !.cls = ev.r.cls] ELSE o)
  /\ Done(IF IsVal(ev) THEN Same(o, ev.r, anycls) ELSE {"fails"})
Query(bad) == UNCHANGED env /\ Done(bad)
Refuse(ev, names) == Query(C("not-refused", IsErr(ev, names)))

NewAoC(ev)  == ev.a = "AoC" /\ MakeObj(ev, AocObj(ev.st \o <<ev.ot>>), FALSE)
NewNum(ev)  == ev.a = "Num" /\ MakeObj(ev, NumObj(ev.st), FALSE)
NewTerm(ev) == ev.a = "Term" /\ MakeObj(ev, TermObj(ev.ops, ev.co, ev.cls), FALSE)
DoMul(ev)   == /\ ev.a = "Mul"
               /\ IF ev.lk = "bad" \/ ev.rk = "bad" THEN Refuse(ev, {"TypeError"})
                  ELSE IF ev.lk = "c" THEN MakeObj(ev, ScaleObj(env[ev.rh], ev.lc), TRUE)
                  ELSE IF ev.rk = "c" THEN MakeObj(ev, ScaleObj(env[ev.lh], ev.rc), TRUE)
                  ELSE MakeObj(ev, MulObj(env[ev.lh], env[ev.rh]), TRUE)
DoDag(ev)   == ev.a = "Dag" /\ MakeObj(ev, DagObj(env[ev.x]), TRUE)
DoToTerm(ev) == ev.a = "ToTerm" /\ MakeObj(ev, TermObj(env[ev.x].ops, DOne, "general"), TRUE)
Pick(v, old) == IF v = -1 THEN old ELSE v
DoDerive(ev) == /\ ev.a = "Derive"
                /\ LET p == env[ev.x].ops[1]
                       st == <<Pick(ev.si, p[1]), Pick(ev.sp, p[2]), Pick(ev.ob, p[3])>>
                   IN MakeObj(ev, IF env[ev.x].k = "num" THEN NumObj(st)
                                  ELSE AocObj(st \o <<Pick(ev.ot, p[4])>>), FALSE)
DoSetCo(ev) == /\ ev.a = "SetCo"
               /\ IF ev.bad THEN Query(C("accepts-bad-coeff", ev.r.t = "err"))
                  ELSE /\ env' = [env EXCEPT ![ev.x].co = ev.co]
                       /\ Done(C("fails", IsVal(ev)))
\* factory arguments: -1 = omitted
DoFactory(ev) == /\ ev.a = "Factory"
  /\ LET dflt(v) == IF v = -1 THEN 0 ELSE v
         sp0 == dflt(ev.sp0)
         ob0 == dflt(ev.ob0)
         st0 == <<ev.s0, sp0, ob0>>
         st1 == IF ev.f = "Hopping"
                THEN <<ev.s1, Pick(ev.sp1, sp0), Pick(ev.ob1, ob0)>>
                ELSE <<ev.s1, dflt(ev.sp1), dflt(ev.ob1)>>
         ops == FactoryOps(ev.f, st0, st1)
     IN MakeObj(ev, IF ev.f \in {"Creator", "Annihilator"} THEN AocObj(ops[1])
                    ELSE TermObj(ops, IF ev.hasco THEN ev.co ELSE DOne, "general"), TRUE)
DoMat(ev) == /\ ev.a = "Mat"
  /\ LET o == IF ev.hasco THEN [env[ev.x] EXCEPT !.co = ev.co] ELSE env[ev.x]
         right == Basis(ev.rb)
         left == IF ev.lb = 0 THEN right ELSE Basis(ev.lb)
         pos == Tab(ev.tb)
     IN /\ env' = [env EXCEPT ![ev.x] = o]
        /\ Done(IF ~CompatShape(o.ops, o.cls) THEN {}   \* misdeclared: unspecified
                ELSE IF ~Known(o.ops, pos) THEN C("unknown-state", IsErr(ev, {"KeyError"}))
                ELSE LET d == TermMat(o, pos, right, left) IN
                     IF d.leaves THEN C("leaves-space", IsErr(ev, {"KeyError"}))
                     ELSE IF ~IsVal(ev) THEN {"fails"}
                     ELSE C("entries", SetOf(ev.r.en) = d.m)
                          \cup C("shape", ev.csr => ev.r.sh = <<Len(left), Len(right)>>)
                          \cup C("stored-zeros", ev.r.nz \/ o.co = DZero))
(* Spaces of thousands of vectors: N of the n tabulated states occupied (-1:   *)
(* any number), in ascending order; some columns and rows of the matrix, each  *)
(* a list of <<occupation, value>>.                                            *)
RECURSIVE Bin(_, _)
Bin(n, j) == IF j = 0 THEN 1 ELSE (Bin(n, j - 1) * (n - j + 1)) \div j
Dim(n, N) == IF N = -1 THEN Pow2(n) ELSE Bin(n, N)
Image(ops, co, occ) ==
  LET im == ActString(ops, Ket(occ)) IN
  IF im.ok /\ co # DZero THEN {<<im.occ, IF im.sg = 1 THEN DNeg(co) ELSE co>>} ELSE {}
Got(q) == {<<SetOf(q[i][1]), q[i][2]>> : i \in 1..Len(q)}
\* number of columns with an entry: the string fixes some states, the others are free
Alive(ops, n, N) ==
  LET S == {ops[i][1] : i \in 1..Len(ops)}
      good == {T \in SUBSET S : ActString(ops, Ket(T)).ok}
  IN IF good = {} THEN 0
     ELSE LET T == CHOOSE T \in good : TRUE
              free == n - Cardinality(S)
              want == N - Cardinality(T)
          IN IF N = -1 THEN Pow2(free) ELSE IF want < 0 \/ want > free THEN 0 ELSE Bin(free, want)
DoBig(ev) == ev.a = "Big" /\
  \E o \in {env[ev.x]} : \E pos \in {Tab(ev.tb)} :
  \E ops \in {[i \in 1..Len(o.ops) |-> <<pos[StOf(o.ops[i])], o.ops[i][4]>>]} :
    LET flip == [i \in 1..Len(ops) |-> <<ops[Len(ops) + 1 - i][1], 1 - ops[Len(ops) + 1 - i][2]>>]
        r == ev.r
    IN Query(IF ~IsVal(ev) THEN {"fails"}
         ELSE C("shape", r.sh = <<Dim(ev.n, ev.M), Dim(ev.n, ev.N)>>)
              \cup C("columns", \A i \in 1..Len(ev.cols) : Len(r.cols[i]) <= 1 /\ Got(r.cols[i]) = Image(ops, o.co, SetOf(ev.cols[i])))
              \cup C("rows", \A i \in 1..Len(ev.rows) : Len(r.rows[i]) <= 1 /\ Got(r.rows[i]) = Image(flip, o.co, SetOf(ev.rows[i])))
              \cup C("entry-count", r.nnz = IF o.co = DZero THEN 0 ELSE Alive(ops, ev.n, ev.N)))
DoNorm(ev) == /\ ev.a = "Norm"
  /\ LET ops == [i \in 1..Len(ev.xs) |-> env[ev.xs[i]].ops[1]]
         lt(a, b) == StLt(a, b)
     IN Query(IF ~IsVal(ev) THEN {"fails"}
              ELSE C("input-changed", ev.r.inp = ops) \cup
                   (IF Blocked(ops) # {}
                    THEN C("must-fail", ev.r.blocked)
                         \cup C("names-offender", ev.r.blocked =>
                                \E p \in Blocked(ops) : {ev.r.a0, ev.r.a1} = {ops[p[1]], ops[p[2]]})
                    ELSE C("must-succeed", ~ev.r.blocked)
                         \cup (IF ev.r.blocked THEN {} ELSE
                               C("order", ev.r.ops = Canonical(ops, lt))
                               \cup C("parity", (ev.r.n - Cardinality(InvPairs(ops, lt))) % 2 = 0))))
DoObs(ev)  == ev.a = "Obs" /\ Query(IF IsVal(ev) THEN Same(env[ev.x], ev.r, FALSE) ELSE {"fails"})
DoCompat(ev) == ev.a = "Compat" /\
  Query(IF IsVal(ev) THEN C("compat", ev.r.b = CompatShape(env[ev.x].ops, env[ev.x].cls)) ELSE {"fails"})
DoConj(ev) == ev.a = "Conj" /\
  (IF ev.bad THEN Refuse(ev, {"TypeError"})
   ELSE Query(IF IsVal(ev) THEN C("conjugate", ev.r.b = (env[ev.x].ops[1] = Flip(env[ev.y].ops[1]))) ELSE {"fails"}))
DoSame(ev) == ev.a = "SameSt" /\
  (IF ev.bad THEN Refuse(ev, {"TypeError"})
   ELSE Query(IF IsVal(ev) THEN C("same-state", ev.r.b = (StOf(env[ev.x].ops[1]) = StOf(env[ev.y].ops[1]))) ELSE {"fails"}))
DoAbort(ev) == ev.a = "Abort" /\ Query({"aborted"})

Init == s \in 1..Len(Trace) /\ k = 1 /\ env = <<>>
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             \/ NewAoC(ev) \/ NewNum(ev) \/ NewTerm(ev) \/ DoMul(ev) \/ DoDag(ev) \/ DoToTerm(ev)
             \/ DoDerive(ev) \/ DoSetCo(ev) \/ DoFactory(ev) \/ DoMat(ev) \/ DoBig(ev) \/ DoNorm(ev)
             \/ DoObs(ev) \/ DoCompat(ev) \/ DoConj(ev) \/ DoSame(ev) \/ DoAbort(ev)
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
