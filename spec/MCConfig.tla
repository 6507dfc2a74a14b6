------------------------------ MODULE MCConfig ------------------------------
(* All histories of settings before first use: a judgement depends on the     *)
(* last value given to its own module only, and is monotone in it.            *)
EXTENDS Config, Json
VARIABLES cfg, hist
vars == <<cfg, hist>>
Values(x) == IF x \in Digital THEN {<<1, p>> : p \in {1, 2, 3, 6}} ELSE {<<1, 2>>, <<5, 6>>, <<1, 12>>}
Init == cfg = Default /\ hist = <<>>
Next == /\ Len(hist) < 2
        /\ \E x \in Modules : \E v \in Values(x) : cfg' = [cfg EXCEPT ![x] = v] /\ hist' = Append(hist, <<x, v>>)
Spec == Init /\ [][Next]_vars
Own == \A x \in Modules : cfg[x] = (LET I == {i \in 1..Len(hist) : hist[i][1] = x}
                                    IN IF I = {} THEN Default[x] ELSE hist[CHOOSE i \in I : \A j \in I : j <= i][2])
Coords == {<<0>>, <<10>>, <<99>>, <<100>>, <<-100>>, <<-99>>, <<1000>>, <<1234567>>, <<1234999>>, <<-1234567>>, <<1235000>>}
\* fewer digits never tell apart what more digits identify
Coarser == \A a, b \in Coords, p \in 0..5 : Same(a, b, p + 1) => Same(a, b, p)
Equiv == \A a, b, c \in Coords : Same(a, b, cfg["site"][2]) /\ Same(b, c, cfg["site"][2]) => Same(a, c, cfg["site"][2])
Lens == {<<1>>, <<3>>, <<30>>, <<6, 6>>, <<1, 2, 2>>}
Wider == \A e \in Lens, m \in 0..8, p \in 1..6 : Shorter(e, m, <<1, p + 1>>) => Shorter(e, m, <<1, p>>)
Scale == \A e \in Lens, m \in 2..6, p \in 2..6 : Shorter(e, m, <<1, p>>) = Shorter([i \in 1..Len(e) |-> 10 * e[i]], m + 1, <<1, p>>)
\* shells ascend; merging keeps the number of bonds
ShellLaw == \A n \in 0..8 : /\ Shell(n, FALSE)[1] <= n
                            /\ \A e \in {1, 4} : LET v(k) == 10 * Shell(k, TRUE)[1] + e * Shell(k, TRUE)[2] IN v(n) < v(n + 1)
KrylovLaw == \A c \in {<<5, 5, 5>>, <<5, 0, 5>>, <<3, 2, 1>>}, m \in 2..5 :
               KrylovDim(c, m, cfg["krylov"]) \in 1..4 /\ KrylovDim(c, m, <<1, 12>>) >= KrylovDim(c, m, <<1, 2>>)
Emit == PrintT("GEN " \o ToJson([g |-> "cfg", hist |-> hist]))
=============================================================================
