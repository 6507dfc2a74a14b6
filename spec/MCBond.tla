-------------------------------- MODULE MCBond --------------------------------
(* All small bonds at two precisions, and pairs of them: equality is an         *)
(* equivalence, direction semantics, flip is an involution. Emits the pairs.    *)
EXTENDS Ident, TLC, Json
CONSTANTS EmitGen
VARIABLES b, ev
vars == <<b, ev>>
Pts == {<<0>>, <<300000>>, <<300050>>, <<-299999>>}
Mk(e) == BondI(e.m0, e.m1, e.dir, e.p)
Events == [m0 : Pts, m1 : Pts, dir : BOOLEAN, p : {2, 4}]
Init == b = <<>> /\ ev = <<>>
Add == \E e \in Events : Len(ev) < 2 /\ (Len(ev) = 1 => e.p = ev[1].p)
          /\ ev' = Append(ev, e) /\ b' = Append(b, Mk(e))
Spec == Init /\ [][Add]_vars
Rev(x) == [p0 |-> x.p1, p1 |-> x.p0, dir |-> x.dir]
Symmetric == \A i, j \in 1..Len(b) : EqB(b[i], b[j]) = EqB(b[j], b[i])
Reflexive == \A i \in 1..Len(b) : EqB(b[i], b[i])
Swap == \A i, j \in 1..Len(b) : (EqB(b[i], b[j]) => b[i].dir = b[j].dir)
          /\ (~b[i].dir => EqB(b[i], Rev(b[i]))) /\ (b[i].dir /\ EqB(b[i], Rev(b[i])) => b[i].p0 = b[i].p1)
          /\ Rev(Rev(b[i])) = b[i] /\ (EqB(Rev(b[i]), b[j]) = EqB(b[i], Rev(b[j])))
Emit == (EmitGen /\ Len(ev) = 2) => PrintT("GEN " \o ToJson([g |-> "bonds", h |-> ev]))
=============================================================================
