------------------------------ MODULE TraceBase ------------------------------
(* Trace validation skeleton. A recorded session is a sequence of public calls *)
(* with their projected outcomes; s picks the session, k is the next event.    *)
(* The importing module supplies the state env and one action per call kind.   *)
(* Every position of every session is visited (the checker counts them), and a *)
(* call whose outcome the specification does not allow prints REJECT with the  *)
(* violated clauses; env always follows the specification, never the log.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* clause c is violated unless ok
C(c, ok) == IF ok THEN {} ELSE {c}
IsVal(ev) == ev.r.t = "val"
IsErr(ev, names) == ev.r.t = "err" /\ ev.r.e \in names
Report(s, k, bad) == IF bad = {} THEN TRUE
  ELSE PrintT("REJECT " \o ToString(s) \o " " \o ToString(k) \o " " \o ToString(bad))
SetOf(q) == {q[i] : i \in 1..Len(q)}
=============================================================================
