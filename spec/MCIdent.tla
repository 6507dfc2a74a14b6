------------------------------- MODULE MCIdent -------------------------------
(* Exhaustive run of the identifier store: precision changes interleaved with  *)
(* creations. Existing identifiers never change; on identifiers of one kind    *)
(* the order is total and agrees with equality.                                *)
EXTENDS Ident, TLC, Json
CONSTANTS MaxLen, EmitGen
VARIABLES prec, store, hist
vars == <<prec, store, hist>>
Coords == {<<0>>, <<-2999999>>, <<300000>>, <<300049>>, <<300049, 0>>, <<299999>>}
Init == prec = 4 /\ store = <<>> /\ hist = <<>>
SetPrec == \E p \in {0, 2, 4, 6} : p # prec /\ prec' = p /\ UNCHANGED store
             /\ hist' = Append(hist, [a |-> "SetPrec", p |-> p])
Put(o, c) == store' = Append(store, o) /\ UNCHANGED prec /\ hist' = Append(hist, c)
NewSite == \E ms \in Coords : Put(SiteI(ms, prec), [a |-> "Site", ms |-> ms])
NewState == \E ms \in Coords, sp \in {0, 1} : Put(StateI(ms, sp, 0, prec), [a |-> "State", ms |-> ms, sp |-> sp])
NewAoc == \E ms \in Coords, t \in {0, 1}, sp \in {0, 1} : Put(AocI(t, ms, sp, 0, prec), [a |-> "Aoc", ms |-> ms, ot |-> t, sp |-> sp])
NewSpin == \E ms \in Coords, o \in {"x", "p"} : Put(SpinI(o, ms, prec), [a |-> "Spin", ms |-> ms, o |-> o])
Next == Len(hist) < MaxLen /\ (SetPrec \/ NewSite \/ NewState \/ NewAoc \/ NewSpin)
Spec == Init /\ [][Next]_vars
N == 1..Len(store)
Total == \A i, j \in N : Comparable(store[i], store[j]) =>
           Cardinality({x \in {1, 2, 3} : CASE x = 1 -> LtI(store[i], store[j]) [] x = 2 -> LtI(store[j], store[i])
                                            [] x = 3 -> EqI(store[i], store[j])}) = 1
Transitive == \A i, j, l \in N : (Comparable(store[i], store[j]) /\ Comparable(store[j], store[l])
                 /\ LtI(store[i], store[j]) /\ LtI(store[j], store[l])) => LtI(store[i], store[l])
Frame == [][\A i \in N : store'[i] = store[i]]_vars
Emit == (EmitGen /\ Len(hist) = MaxLen /\ (\E i \in 1..Len(hist) : hist[i].a = "SetPrec") /\ Len(store) >= 2
         /\ \A i \in N : store[i].kind = store[1].kind)
        => PrintT("GEN " \o ToJson([g |-> "ident", h |-> hist]))
=============================================================================
