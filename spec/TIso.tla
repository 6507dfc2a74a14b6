--------------------------------- MODULE TIso ---------------------------------
(* Recorded schedules on the real objects. Ref records the answer of a query  *)
(* asked of a pristine twin; every later answer must be the same value.       *)
EXTENDS Iso, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
\* env: [world, ref: query -> answer]
DoRef(ev) == ev.a = "Ref" /\ Report(s, k, IF IsVal(ev) THEN {} ELSE {"fails"})
             /\ env' = [env EXCEPT !.ref = IF IsVal(ev) THEN @ @@ (ev.q :> ev.r.v) ELSE @]
DoMake(ev) == ev.a = "Make" /\ env' = [env EXCEPT !.w = MakeW(@)]
              /\ Report(s, k, IF IsVal(ev) THEN C("argument-changed", ev.r.same) ELSE {"fails"})
DoTouch(ev) == ev.a = "Touch" /\ env' = [env EXCEPT !.w = TouchW(@, ev.c)] /\ Report(s, k, {})
DoAsk(ev) == ev.a = "Ask" /\ env' = [env EXCEPT !.w = AskW(@, ev.q)]
             /\ Report(s, k, IF ~IsVal(ev) THEN {"fails"}
                  ELSE C("answer-changed", ev.q \in DOMAIN env.ref => ev.r.v = env.ref[ev.q])
                       \cup C("argument-changed", ev.r.same) \cup C("earlier-result-changed", ev.r.kept))
DoSpoil(ev) == ev.a = "Spoil" /\ env' = [env EXCEPT !.w = SpoilW(@, ev.i)] /\ Report(s, k, C("earlier-result-changed", ev.r.kept))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = [w |-> World(Trace[s].n), ref |-> <<>>]
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             DoRef(ev) \/ DoMake(ev) \/ DoTouch(ev) \/ DoAsk(ev) \/ DoSpoil(ev)
             \/ (ev.a = "Abort" /\ UNCHANGED env /\ Report(s, k, {"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
