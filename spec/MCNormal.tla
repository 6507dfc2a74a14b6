------------------------------- MODULE MCNormal -------------------------------
(* Normal ordering as nondeterministic adjacent transpositions of out-of-order *)
(* operators on different states. Whatever order is taken: the operator stays  *)
(* the same up to the parity of the swaps, the process can only end in the     *)
(* canonical string, and it is stuck exactly on a blocked pair.                *)
EXTENDS Terms, Json
CONSTANTS NSt, MaxLen, EmitGen
VARIABLES orig, q, par
vars == <<orig, q, par>>
AllOps == {<<i, 0, 0, t>> : i \in 1..NSt, t \in {CR, AN}}
Lt(a, b) == a[1] < b[1]
Pos == [s \in {<<i, 0, 0>> : i \in 1..NSt} |-> s[1] - 1]
Full == FullBasis(NSt)
D(ops, sg) == TermMat(TermObj(ops, IF sg = 1 THEN DNeg(DOne) ELSE DOne, "general"), Pos, Full, Full).m
Init == \E n \in 1..MaxLen : orig \in [1..n -> AllOps] /\ q = orig /\ par = 0
Swap(i) == /\ OpBefore(q[i + 1], q[i], Lt) /\ StOf(q[i]) # StOf(q[i + 1])
           /\ q' = [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]]
           /\ par' = 1 - par /\ UNCHANGED orig
Next == \E i \in 1..(Len(q) - 1) : Swap(i)
Spec == Init /\ [][Next]_vars
SameOperator == D(q, par) = D(orig, 0)
Terminal == ~ \E i \in 1..(Len(q) - 1) : OpBefore(q[i + 1], q[i], Lt) /\ StOf(q[i]) # StOf(q[i + 1])
EndsCanonical == (Terminal /\ Blocked(orig) = {}) =>
                    q = Canonical(orig, Lt) /\ par = Cardinality(InvPairs(orig, Lt)) % 2
BlockedForever == (Blocked(orig) # {}) <=> (Blocked(q) # {})
Emit == (EmitGen /\ q = orig /\ par = 0) => PrintT("GEN " \o ToJson([g |-> "norm", ops |-> orig]))
=============================================================================
