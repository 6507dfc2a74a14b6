--------------------------------- MODULE TEnv ---------------------------------
(* Recorded environment programs; after every step the observed output sink   *)
(* and thread limit, at the end the contents of all logs.                     *)
EXTENDS Env, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
T == Trace[s]
\* fields reported after every operation
Look(ev, S) == C("stdout", ev.r.out = S.out) \cup C("threads", ev.r.thr = S.thr)
DoNew(ev) == ev.a = "New" /\
  IF ev.bad THEN UNCHANGED env /\ Report(s, k, C("invalid-accepted", IsErr(ev, {"ValueError"})))
  ELSE env' = NewS(env, ev.rd, ev.n, ev.gone) /\ Report(s, k, IF IsVal(ev) THEN Look(ev, env) ELSE {"fails"})
DoEnter(ev) == ev.a = "Enter" /\
  IF ~CanEnter(env, ev.obj)
  THEN UNCHANGED env /\ Report(s, k, C("no-log-accepted", ev.r.t = "err") \cup Look(ev, env))
  ELSE IF ~IsVal(ev) THEN UNCHANGED env /\ Report(s, k, {"fails"})
  ELSE LET ok == ev.r.thr \in Limits(env, ev.obj, T.max)
           S == EnterS(env, ev.obj, ev.r.thr)
       IN env' = S /\ Report(s, k, C("threads", ok) \cup C("stdout", ev.r.out = S.out) \cup C("enter-value", ev.r.ret))
Step(ev, S) == env' = S /\ Report(s, k, IF IsVal(ev) THEN Look(ev, S) ELSE {"fails"})
DoPrint(ev) == ev.a = "Print" /\ Step(ev, PrintS(env, ev.x))
DoSwap(ev) == ev.a = "Swap" /\ Step(ev, SwapS(env))
DoThreads(ev) == ev.a = "Threads" /\ Step(ev, ThreadS(env, ev.n))
DoLeave(ev) == ev.a = "Leave" /\ LET S == LeaveS(env, ev.exc) IN
  env' = S /\ Report(s, k,
    IF ~IsVal(ev) THEN {"fails"}
    ELSE Look(ev, S) \cup C("log-open", ev.r.closed) \cup C("exception", ev.r.same))
Bag(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Bag(p, p[i]) = Bag(q, p[i])
DoEnd(ev) == ev.a = "End" /\ UNCHANGED env /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"} ELSE
  LET logs == [i \in 1..Len(env.logs) |-> [text |-> env.logs[i].text, exc |-> env.logs[i].exc, whole |-> TRUE]]
  IN C("outside-output", ev.r.base = env.base) \cup C("own-output", ev.r.own = env.own)
     \cup C("number-of-logs", Len(ev.r.logs) = Len(logs)) \cup C("log-contents", SameBag(ev.r.logs, logs)))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = Fresh(Trace[s].thr)
Next == /\ k <= Len(T.ev)
        /\ LET ev == T.ev[k] IN
             \/ DoNew(ev) \/ DoEnter(ev) \/ DoPrint(ev) \/ DoSwap(ev) \/ DoThreads(ev) \/ DoLeave(ev) \/ DoEnd(ev)
             \/ (ev.a = "Abort" /\ UNCHANGED env /\ Report(s, k, {"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
