--------------------------------- MODULE Iso ---------------------------------
(* Value semantics. Memory cells hold versions; the caller's program owns the *)
(* cells it passed and the cells it received. An object owns private copies:  *)
(* its answers depend on the versions its inputs had when it was built.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* cells: version of each input cell; obj: the versions copied at construction; got: received results
World(n) == [cells |-> [i \in 1..n |-> 0], obj |-> <<>>, got |-> <<>>]
MakeW(W) == [W EXCEPT !.obj = W.cells]
TouchW(W, c) == [W EXCEPT !.cells[c] = @ + 1]
\* an answer is a fresh cell, its value a function of the object and the query
AnswerOf(W, q) == <<W.obj, q>>
AskW(W, q) == [W EXCEPT !.got = Append(@, [val |-> AnswerOf(W, q), ver |-> 0])]
SpoilW(W, i) == [W EXCEPT !.got[i].ver = @ + 1]
=============================================================================
