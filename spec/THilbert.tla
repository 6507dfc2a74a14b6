------------------------------ MODULE THilbert ------------------------------
(* Recorded sessions of Hilbert-space construction and enumeration.           *)
EXTENDS Hilbert, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
Query(bad) == UNCHANGED env /\ Report(s, k, bad)
Kets(q) == [i \in 1..Len(q) |-> SetOf(q[i])]
Enum(ev, sps) ==
  IF ~IsVal(ev) THEN {"fails"} ELSE
  LET q == Kets(ev.r.kets)
      want == Sector(sps)
  IN C("missing", want \subseteq SetOf(q)) \cup C("extra", SetOf(q) \subseteq want)
     \cup C("repeated", Len(q) = Cardinality(want))
     \cup C("container", ev.r.cont = ev.cont) \cup C("dtype", ev.cont = "array" => ev.r.dt = "uint64")
     \cup C("order", ev.sort => \A i \in 1..(Len(q) - 1) : LtKet(q[i], q[i + 1]))
\* malformed = the driver passed something that is not a specifier list at all
Wrong(ev) == ev.malformed \/ ~Valid(ev.specs)
Base(ev) == ev.a = "Base" /\
  Query(IF Wrong(ev) THEN C("refusal", IsErr(ev, {"ValueError"})) ELSE Enum(ev, ev.specs))
New(ev) == ev.a = "New" /\
  IF Wrong(ev) THEN Query(C("refusal", IsErr(ev, {"ValueError"})))
  ELSE /\ env' = (ev.h :> ev.specs) @@ env
       /\ Report(s, k, IF ~IsVal(ev) THEN {"fails"} ELSE
            C("attributes", ev.r.num = Len(ev.specs) /\ Len(ev.r.specs) = Len(ev.specs)
               /\ \A i \in 1..Len(ev.r.specs) :
                    LET a == ev.r.specs[i]
                        b == ev.specs[i]
                    IN StatesOf(a) = StatesOf(b) /\ Len(a[1]) = Len(b[1]) /\ (a[2] = b[2] \/ (a[2] < 0 /\ b[2] < 0))))
\* large sectors: size, sampled places <<place, states>>, sampled states <<states, present>>, no two alike
Big(ev) == ev.a = "Big" /\
  Query(IF ~IsVal(ev) THEN {"fails"} ELSE
        C("size", ev.r.n = SizeFrom(ev.specs, 1) /\ ev.r.distinct = ev.r.n)
        \cup C("extra", \A i \in 1..Len(ev.r.at) : InSector(SetOf(ev.r.at[i][2]), ev.specs))
        \cup C("missing", \A i \in 1..Len(ev.r.has) : ev.r.has[i][2] = InSector(SetOf(ev.r.has[i][1]), ev.specs))
        \cup C("order", ev.sort => (ev.r.up /\ (Len(ev.specs) = 1 =>
              \A i \in 1..Len(ev.r.at) : ev.r.at[i][1] = Rank(SetOf(ev.r.at[i][2]), ev.specs[1]))))
        \cup C("container", ev.r.cont = ev.cont) \cup C("dtype", ev.cont = "array" => ev.r.dt = "uint64"))
Ask(ev) == ev.a = "Ask" /\ Query(Enum(ev, env[ev.h]))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = <<>>
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             \/ Base(ev) \/ Big(ev) \/ New(ev) \/ Ask(ev) \/ (ev.a = "Abort" /\ Query({"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
