-------------------------------- MODULE MCIso --------------------------------
(* Design run: every schedule of construction, queries and modifications.     *)
EXTENDS Iso, Json
CONSTANTS Inputs, Queries, Steps
VARIABLES W, hist
vars == <<W, hist>>
Init == W = World(Inputs) /\ hist = <<>>
Op(o, i) == hist' = Append(hist, [o |-> o, i |-> i])
Make == W.obj = <<>> /\ W' = MakeW(W) /\ Op("make", 0)
Touch == \E c \in 1..Inputs : W' = TouchW(W, c) /\ Op("touch", c)
Ask == W.obj # <<>> /\ \E q \in 1..Queries : W' = AskW(W, q) /\ Op("ask", q)
Spoil == \E i \in 1..Len(W.got) : W.got[i].ver = 0 /\ W' = SpoilW(W, i) /\ Op("spoil", i)
Next == Len(hist) < Steps /\ (Make \/ Touch \/ Ask \/ Spoil)
Spec == Init /\ [][Next]_vars
\* the same query always has the same answer, whatever happened in between
Stable == \A i, j \in 1..Len(W.got) : W.got[i].val[2] = W.got[j].val[2] => W.got[i].val = W.got[j].val
\* modifying inputs or results never reaches the object or another result
Private == [][W.obj # <<>> => W'.obj = W.obj]_vars
Apart == [][\A i \in 1..Len(W.got) : Cardinality({j \in 1..Len(W.got) : W'.got[j] # W.got[j]}) <= 1]_vars
Emit == (Len(hist) = Steps /\ W.got # <<>> /\ hist[1].o = "make" /\ hist[Steps].o = "ask"
         /\ \E i \in 1..Steps : hist[i].o \in {"touch", "spoil"})
        => PrintT("GEN " \o ToJson([g |-> "iso", ops |-> hist]))
=============================================================================
