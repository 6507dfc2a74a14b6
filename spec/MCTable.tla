------------------------------- MODULE MCTable -------------------------------
(* All small tables built one object at a time; inverse lookups; emits every   *)
(* build sequence (including the ones that must be refused).                   *)
EXTENDS Table, TLC, Json
CONSTANTS MaxLen, EmitGen
VARIABLES xs, start, ok
vars == <<xs, start, ok>>
Uni == {<<"int", 1>>, <<"int", 2>>, <<"str", 1>>, <<"str", 2>>, <<"tuple", 1>>, <<"named", 1>>}
Init == xs = <<>> /\ start \in {-2, 0, 3} /\ ok = TRUE
Add == /\ Len(xs) < MaxLen
       /\ \E x \in Uni : xs' = Append(xs, x) /\ ok' = (ok /\ (\A i \in 1..Len(xs) : xs[i] # x /\ IsA(x[1], xs[1][1])))
       /\ UNCHANGED start
Spec == Init /\ [][Add]_vars
OkLaw == ok = (Distinct(xs) /\ OneType(xs))
Inverse == ok => LET t == TableOf(xs, start) IN
   /\ \A i \in start..(start + Len(xs) - 1) : IndexOf(t, ObjectAt(t, i)) = i
   /\ \A x \in Uni : Has(t, x) => InRange(t, IndexOf(t, x)) /\ ObjectAt(t, IndexOf(t, x)) = x
   /\ {IndexOf(t, x) : x \in {y \in Uni : Has(t, y)}} = start..(start + Len(xs) - 1)
Emit == (EmitGen /\ xs # <<>>) => PrintT("GEN " \o ToJson([g |-> "table", xs |-> xs, start |-> start]))
=============================================================================
