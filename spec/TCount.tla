------------------------------- MODULE TCount -------------------------------
(* Recorded permutation and combination counts, as base-1000 digits.          *)
EXTENDS Count, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
DoCount(ev) == ev.a = "Count" /\ Report(s, k,
  IF ev.ty = "int" /\ InRange(ev.n, ev.k)
  THEN IF ~IsVal(ev) THEN {"fails"}
       ELSE C("not-an-integer", ev.r.int) \cup C("count", ev.r.v = CountOf(ev.fn, ev.n, ev.k, ev.rep))
  ELSE C("out-of-range-accepted", ev.r.t = "err" /\ ev.r.e = "AssertionError"))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = <<>>
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN DoCount(ev) \/ (ev.a = "Abort" /\ Report(s, k, {"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED <<s, env>>
Spec == Init /\ [][Next]_vars
=============================================================================
