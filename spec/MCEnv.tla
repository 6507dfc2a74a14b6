-------------------------------- MODULE MCEnv --------------------------------
(* Design run: every program of a few operations over two redirecting         *)
(* environments and one that only limits threads; exceptions may leave any    *)
(* number of them.                                                            *)
EXTENDS Env, Json
CONSTANTS Steps
VARIABLES S, hist, printed, entered
vars == <<S, hist, printed, entered>>
Start == NewS(NewS(NewS(Fresh(4), TRUE, 0, FALSE), TRUE, 2, FALSE), FALSE, 1, FALSE)
\* entered remembers <<out, thr>> before each active environment, independently of the frames
Init == S = Start /\ hist = <<>> /\ printed = 0 /\ entered = <<>>
Op(o, i) == hist' = Append(hist, [o |-> o, i |-> i])
Enter == \E o \in 1..3 : S' = EnterS(S, o, IF o = 1 THEN 4 ELSE S.objs[o].thr) /\ Op("enter", o)
            /\ entered' = Append(entered, <<S.out, S.thr>>) /\ UNCHANGED printed
Say == S' = PrintS(S, printed + 1) /\ printed' = printed + 1 /\ Op("print", 0) /\ UNCHANGED entered
Swap == (IF S.stk = <<>> THEN TRUE ELSE Top(S).log > 0) /\ S' = SwapS(S) /\ Op("swap", 0) /\ UNCHANGED <<printed, entered>>
Threads == S' = ThreadS(S, 3) /\ Op("threads", 3) /\ UNCHANGED <<printed, entered>>
Leave == S.stk # <<>> /\ S' = LeaveS(S, "") /\ Op("leave", 0) /\ entered' = SubSeq(entered, 1, Len(entered) - 1) /\ UNCHANGED printed
RECURSIVE Unwind(_, _)
Unwind(X, d) == IF d = 0 THEN X ELSE Unwind(LeaveS(X, "E"), d - 1)
Raise == \E d \in 1..Len(S.stk) : S' = Unwind(S, d) /\ Op("raise", d)
            /\ entered' = SubSeq(entered, 1, Len(entered) - d) /\ UNCHANGED printed
Next == Len(hist) < Steps /\ (Enter \/ Say \/ Swap \/ Threads \/ Leave \/ Raise)
Spec == Init /\ [][Next]_vars
\* leaving gives back exactly what held at the matching entry
Restores == [][Len(entered') < Len(entered) =>
                 LET e == entered[Len(entered') + 1] IN S'.thr = e[2] /\ S'.out = e[1]]_vars
Open == \A i \in 1..Len(S.logs) : S.logs[i].open <=> \E j \in 1..Len(S.stk) : S.stk[j].log = i
\* every printed text is in exactly one place, in order
All == <<S.base>> \o S.own \o [i \in 1..Len(S.logs) |-> S.logs[i].text]
Count(x) == Cardinality({<<i, j>> \in (1..Len(All)) \X (1..printed) : j <= Len(All[i]) /\ All[i][j] = x})
Once == \A x \in 1..printed : Count(x) = 1
\* a redirecting environment at the top owns the output, unless the program replaced it
Own == (S.stk # <<>> /\ Top(S).log > 0) => S.out \in {Top(S).log} \cup {-i : i \in 1..Len(S.own)}
Emit == (Len(hist) = Steps /\ entered # <<>>) \/ (Len(hist) = Steps /\ Len(S.logs) > 0)
         => PrintT("GEN " \o ToJson([g |-> "env", ops |-> hist]))
=============================================================================
