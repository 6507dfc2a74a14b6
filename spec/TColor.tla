------------------------------- MODULE TColor -------------------------------
(* Recorded coloured strings and prints.                                      *)
EXTENDS Color, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
Sch(x) == IF x = "rgb" THEN 24 ELSE IF x = "4" THEN 4 ELSE IF x = "8" THEN 8 ELSE IF x = "24" THEN 24 ELSE 0
Fine(ev) == Sch(ev.sch) # 0 /\ Valid(ev.fg, Sch(ev.sch), TRUE) /\ Valid(ev.bg, Sch(ev.sch), FALSE)
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
Judge(ev, want) == Report(s, k,
  IF ~Fine(ev) THEN C("invalid-accepted", IsErr(ev, {"ValueError"}))
  ELSE IF ~IsVal(ev) THEN {"fails"} ELSE C("text", ev.r.out = want))
DoColor(ev) == ev.a = "Color" /\ Judge(ev, Colored(ev.text, ev.fg, ev.bg, ev.bold, Sch(ev.sch)))
DoPrint(ev) == ev.a = "Print" /\ Judge(ev, Colored(Join(ev.objs, ev.sep), ev.fg, ev.bg, ev.bold, Sch(ev.sch)) \o ev.end)
None == [k |-> "none"]
\* the demonstration: every palette colour names itself

Pad(n) == IF n < 10 THEN "   " \o ToString(n) ELSE IF n < 100 THEN "  " \o ToString(n) ELSE " " \o ToString(n)
DemoLine(n) == IF n < 0 THEN Colored("fg = None, bg = None", None, None, FALSE, 8)
               ELSE Colored("fg = " \o Pad(n) \o ", bg = None", [k |-> "int", v |-> n], None, FALSE, 8)
DemoFrom(n, lines) == \A i \in 1..257 : lines[i] = n \o DemoLine(i - 2)
DoDemo(ev) == ev.a = "Demo" /\ Report(s, k,
  IF ~IsVal(ev) THEN {"fails"}
  ELSE C("demo-lines", Len(ev.r.lines) = 257) \cup
       (IF Len(ev.r.lines) = 257 THEN C("demo", DemoFrom(ev.prefix, ev.r.lines)) ELSE {}))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = <<>>
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN DoColor(ev) \/ DoPrint(ev) \/ DoDemo(ev) \/ (ev.a = "Abort" /\ Report(s, k, {"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED <<s, env>>
Spec == Init /\ [][Next]_vars
=============================================================================
