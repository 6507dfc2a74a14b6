------------------------------- MODULE MCColor -------------------------------
(* Design run: a terminal obeying the controls of a coloured text one by one; *)
(* at the text it shows exactly the requested colours, afterwards none.       *)
EXTENDS Color, Json
VARIABLES fg, bg, bold, sch, pos, term
vars == <<fg, bg, bold, sch, pos, term>>
Name(x) == [k |-> "name", n |-> x]
Code(v) == [k |-> "int", v |-> v]
Pool == {[k |-> "none"]} \cup {Name(Names[i]) : i \in 1..8} \cup {Name("k"), Name("g"), Name("grey")}
        \cup {Code(v) : v \in {0, 7, 8, 30, 37, 38, 47, 90, 97, 100, 107, 255, 256}}
        \cup {[k |-> "rgb", v |-> <<0, 255, 7>>], [k |-> "rgb", v |-> <<1, 2, 256>>],
              [k |-> "hex", d |-> <<15, 0, 10, 1, 0, 9>>], [k |-> "hex", d |-> <<1, 2, 3>>]}
OK(c, f) == Valid(c, sch, f) /\ ~Foreign(c, sch)
Seqs == Controls(fg, bg, bold, sch) \o <<<<0>>>>
TextAt == Len(Seqs)
Init == /\ sch \in {4, 8, 24} /\ bold \in BOOLEAN
        /\ fg \in {c \in Pool : Valid(c, sch, TRUE) /\ ~Foreign(c, sch)}
        /\ bg \in {c \in Pool : Valid(c, sch, FALSE) /\ ~Foreign(c, sch)}
        /\ pos = 1 /\ term = Plain
Next == pos <= Len(Seqs) /\ term' = Obey(term, Seqs[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<fg, bg, bold, sch>>
Spec == Init /\ [][Next]_vars
Shows == pos = TextAt => term = [fg |-> Shown(fg, sch), bg |-> Shown(bg, sch), bold |-> bold]
Resets == pos > Len(Seqs) => term = Plain
\* names, abbreviations, codes and components of one colour agree
Agree == \A i \in 1..8 : /\ Params(Name(Names[i]), sch, TRUE) = Params(Name(Short[i]), sch, TRUE)
                         /\ Params(Name(Names[i]), 8, FALSE) = Params(Code(i - 1), 8, FALSE)
                         /\ Shown(Name(Names[i]), 4) = Shown(Code(29 + i), 4)
Emit == pos = 1 => PrintT("GEN " \o ToJson([g |-> "col", fg |-> fg, bg |-> bg, bold |-> bold, sch |-> sch]))
=============================================================================
