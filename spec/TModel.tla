-------------------------------- MODULE TModel --------------------------------
(* Recorded assembled Hamiltonians. Header lat is the integer cluster; entries *)
(* are [row, column, real, imaginary weight in 1/16].                         *)
EXTENDS Model, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
H == Trace[s].lat
PosF(q) == [x \in {<<q[i][1], q[i][2], q[i][3]>> : i \in 1..Len(q)} |->
              q[CHOOSE i \in 1..Len(q) : <<q[i][1], q[i][2], q[i][3]>> = x][4]]
Expected(cols, right, left) ==
  LET row == RowOf(left)
  IN UNION {{<<row[T] - 1, c - 1, cols[c][T][1], cols[c][T][2]>> : T \in DOMAIN cols[c]} : c \in 1..Len(right)}
\* env: the cluster; the specification's matrix of the previous event is not needed
HamBad(ev, str) ==
  LET basis == [r \in 1..Len(ev.basis) |-> SetOf(ev.basis[r])]
      cols == TLCEval([c \in 1..Len(basis) |-> Column(str, basis[c])])
      dom == SetOf(basis)
  IN IF \E c \in 1..Len(basis) : ~(DOMAIN cols[c] \subseteq dom) THEN {"driver-open-sector"}
     ELSE C("shape", ev.r.sh = <<Len(basis), Len(basis)>>) \cup C("matrix", SetOf(ev.r.en) = Expected(cols, basis, basis))
DoHam(ev) == ev.a = "Ham" /\ UNCHANGED env
  /\ IF ~IsVal(ev) THEN Report(s, k, {"fails"})
     ELSE \E str \in {Listing(AllStrings(env, ev.m), PosF(ev.pos))} : Report(s, k, HamBad(ev, str))
DoSpin(ev) == ev.a = "Spin" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"}
  ELSE LET n == Len(ev.pos)
           all == [b \in 1..Pow2(n) |-> {i \in 0..(n - 1) : ((b - 1) \div Pow2(i)) % 2 = 1}]
           sh == TLCEval([x \in 1..Len(ev.m.Jz) |-> Ends(env, x)])
           cols == TLCEval([c \in 1..Len(all) |-> SpinColumn(sh, ev.m, ev.pos, all[c])])
       IN C("shape", ev.r.sh = <<Pow2(n), Pow2(n)>>)
          \cup C("matrix", SetOf(ev.r.en) = Expected(cols, all, all)))
\* many modes: some columns, rows given by their states
Cells(f) == {<<T, f[T][1], f[T][2]>> : T \in DOMAIN f}
Got(col) == {<<SetOf(col[i][1]), col[i][2], col[i][3]>> : i \in 1..Len(col)}
DoWHam(ev) == ev.a = "WHam" /\ UNCHANGED env
  /\ IF ~IsVal(ev) THEN Report(s, k, {"fails"})
     ELSE \E str \in {Listing(AllStrings(env, ev.m), PosF(ev.pos))} : Report(s, k,
       C("shape", ev.r.sh = <<ev.dim, ev.dim>>)
       \cup C("matrix", Len(ev.r.cols) = Len(ev.kets) /\ \A c \in 1..Len(ev.kets) :
              Got(ev.r.cols[c]) = Cells(Column(str, SetOf(ev.kets[c])))))
DoWSpin(ev) == ev.a = "WSpin" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"}
  ELSE LET n == Len(ev.pos)
           sh == TLCEval([x \in 1..Len(ev.m.Jz) |-> Ends(env, x)])
       IN C("shape", ev.r.sh = <<Pow2(n), Pow2(n)>>)
          \cup C("matrix", Len(ev.r.cols) = Len(ev.kets) /\ \A c \in 1..Len(ev.kets) :
                 Got(ev.r.cols[c]) = Cells(SpinColumn(sh, ev.m, ev.pos, SetOf(ev.kets[c])))))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = Make(H.d, H.G, H.P, H.V)
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             DoHam(ev) \/ DoSpin(ev) \/ DoWHam(ev) \/ DoWSpin(ev)
             \/ (ev.a = "Abort" /\ UNCHANGED env /\ Report(s, k, {"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
