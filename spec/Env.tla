--------------------------------- MODULE Env ---------------------------------
(* Run-time environments: where printed text goes, which thread limit holds,  *)
(* and what is restored. Sinks: 0 is the standard output outside, n > 0 the   *)
(* n-th log, n < 0 an output substituted by the program itself.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* o: environments created so far, [rd, thr] with thr = 0 for "unchanged default"
Fresh(thr) == [out |-> 0, thr |-> thr, stk |-> <<>>, logs |-> <<>>, base |-> <<>>, own |-> <<>>, objs |-> <<>>]
NewS(S, rd, thr, gone) == [S EXCEPT !.objs = Append(@, [rd |-> rd, thr |-> thr, gone |-> gone, at |-> S.thr])]
Ob(S, o) == S.objs[o]
\* thread limits the environment may set: the default is the number when created, when entered, or the maximum
Limits(S, o, max) == IF Ob(S, o).thr > 0 THEN {Ob(S, o).thr} ELSE {Ob(S, o).at, S.thr, max}
\* a log needs its directory
CanEnter(S, o) == ~(Ob(S, o).rd /\ Ob(S, o).gone)
EnterS(S, o, thr) ==
  LET log == IF Ob(S, o).rd THEN Len(S.logs) + 1 ELSE 0
      frame == [log |-> log, out |-> S.out, thr |-> S.thr]
  IN [S EXCEPT !.stk = Append(@, frame), !.thr = thr,
               !.out = IF log = 0 THEN @ ELSE log,
               !.logs = IF log = 0 THEN @ ELSE Append(@, [text |-> <<>>, exc |-> "", open |-> TRUE])]
PrintS(S, x) == IF S.out = 0 THEN [S EXCEPT !.base = Append(@, x)]
                ELSE IF S.out < 0 THEN [S EXCEPT !.own[-S.out] = Append(@, x)]
                ELSE [S EXCEPT !.logs[S.out].text = Append(@, x)]
SwapS(S) == [S EXCEPT !.own = Append(@, <<>>), !.out = -(Len(S.own) + 1)]
ThreadS(S, n) == [S EXCEPT !.thr = n]
Top(S) == S.stk[Len(S.stk)]
\* leaving restores what held before entering, and closes the log
LeaveS(S, exc) ==
  LET f == Top(S)
      R == [S EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1), !.thr = f.thr]
  IN IF f.log = 0 THEN R
     ELSE [R EXCEPT !.out = f.out, !.logs[f.log].exc = exc, !.logs[f.log].open = FALSE]
=============================================================================
