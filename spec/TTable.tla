------------------------------- MODULE TTable -------------------------------
(* Recorded index-table sessions. Header uni: objects as <<type, identity>>;   *)
(* events name objects by their number in uni.                                 *)
EXTENDS Table, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>
U(i) == Trace[s].uni[i]
Objs(q) == [i \in 1..Len(q) |-> U(q[i])]
Query(bad) == UNCHANGED env /\ Report(s, k, bad)
Has2(h) == h \in DOMAIN env
NewT(ev) == ev.a = "New" /\
  LET xs == Objs(ev.xs) IN
  IF Distinct(xs) /\ OneType(xs)
  THEN /\ env' = (ev.h :> TableOf(xs, ev.start)) @@ env
       /\ Report(s, k, IF IsVal(ev) THEN C("length", ev.r.len = Len(xs)) \cup C("type", ev.r.ty = xs[1][1]) ELSE {"fails"})
  ELSE Query(C("refusal", IsErr(ev, (IF Distinct(xs) THEN {} ELSE {"ValueError"})
                                    \cup (IF OneType(xs) THEN {} ELSE {"TypeError"}))))
QI(ev) == ev.a = "QI" /\
  LET t == env[ev.h]
      x == U(ev.x)
  IN Query(IF ~IsA(x[1], t.objs[1][1]) THEN C("wrong-type", IsErr(ev, {"TypeError"}))
           ELSE IF ~Has(t, x) THEN C("unknown", IsErr(ev, {"KeyError"}))
           ELSE IF IsVal(ev) THEN C("index", ev.r.i = IndexOf(t, x)) ELSE {"fails"})
QO(ev) == ev.a = "QO" /\
  LET t == env[ev.h] IN
  Query(IF ev.bad THEN C("wrong-type", IsErr(ev, {"TypeError"}))
        ELSE IF ~InRange(t, ev.i) THEN C("unknown", IsErr(ev, {"KeyError"}))
        ELSE IF IsVal(ev) THEN C("object", ev.r.x # 0 /\ U(ev.r.x) = ObjectAt(t, ev.i)) ELSE {"fails"})
Views(ev) == ev.a = "Views" /\
  LET t == env[ev.h]
      n == Len(t.objs)
      ids(q) == \A i \in 1..Len(q) : q[i] # 0
  IN Query(IF ~IsVal(ev) THEN {"fails"} ELSE
           C("length", ev.r.len = n)
           \cup C("indices", ev.r.inds = [i \in 1..n |-> t.start + i - 1])
           \cup C("objects", ids(ev.r.objs) /\ Objs(ev.r.objs) = t.objs)
           \cup C("iteration", ev.r.iti = [i \in 1..n |-> t.start + i - 1] /\ ids(ev.r.ito) /\ Objs(ev.r.ito) = t.objs))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = <<>>
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             \/ NewT(ev) \/ QI(ev) \/ QO(ev) \/ Views(ev) \/ (ev.a = "Abort" /\ Query({"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
