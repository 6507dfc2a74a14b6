-------------------------------- MODULE Table --------------------------------
(* Index tables: a bijection between distinct objects of one type and a        *)
(* contiguous range. An object is <<type, identity>>.                          *)
EXTENDS Integers, Sequences, FiniteSets
Distinct(xs) == \A i, j \in 1..Len(xs) : i # j => xs[i] # xs[j]
\* an object of a subtype is an object of the type
SUBTYPES == {<<"named", "tuple">>, <<"bool", "int">>, <<"state", "site">>}
IsA(a, b) == a = b \/ <<a, b>> \in SUBTYPES
OneType(xs) == \A i \in 1..Len(xs) : IsA(xs[i][1], xs[1][1])
TableOf(xs, start) == [objs |-> xs, start |-> start]
Has(t, x) == \E i \in 1..Len(t.objs) : t.objs[i] = x
IndexOf(t, x) == t.start + (CHOOSE i \in 1..Len(t.objs) : t.objs[i] = x) - 1
InRange(t, i) == i >= t.start /\ i < t.start + Len(t.objs)
ObjectAt(t, i) == t.objs[i - t.start + 1]
=============================================================================
