------------------------------ MODULE MCFigure ------------------------------
(* Design run: the shown sites are distinct, grow cell by cell to the whole   *)
(* scope, links join nearest neighbours of the lattice with the right number  *)
(* of them in the interior, bisectors are perpendicular and of equal ratio.   *)
EXTENDS Figure, Json
VARIABLES w, done, at
vars == <<w, done, at>>
SQ == <<<<1, 0>>, <<0, 1>>>>
HX == <<<<2, 1>>, <<1, 2>>>>
Clusters == { [d |-> 1, G |-> <<<<1>>>>, P |-> <<<<0>>>>, V |-> <<<<1>>>>], [d |-> 1, G |-> <<<<1>>>>, P |-> <<<<0>>, <<2>>>>, V |-> <<<<3>>>>],
              [d |-> 2, G |-> SQ, P |-> <<<<0, 0>>, <<1, 0>>>>, V |-> <<<<1, 1>>, <<1, -1>>>>],
              [d |-> 2, G |-> HX, P |-> <<<<0, 0>>, <<1, 0>>>>, V |-> <<<<2, 0>>, <<0, 1>>>>],
              [d |-> 2, G |-> SQ, P |-> <<<<0, 0>>, <<1, 2>>, <<3, 3>>>>, V |-> <<<<5, 1>>>>] }
Names == {"square", "triangle", "honeycomb", "kagome"}
Init == /\ done = {}
        /\ \/ w \in [k : {"lat"}, c : Clusters, scope : 0..2] /\ at = {}
           \/ w \in [k : {"patch"}, c : Names, n0 : 0..2, n1 : 0..2] /\ at = {}
           \/ w \in [k : {"bz"}, c : {SQ, HX, <<<<4, 1>>, <<1, 3>>>>}, n : BZPoints \ {<<0, 0>>}] /\ at = {}
Lof(c) == Make(c.d, c.G, c.P, c.V)
\* clusters are drawn one after another
Next == w.k = "lat" /\ \E n \in Steps(w.scope, Len(w.c.V)) \ done :
          /\ (\A x \in Steps(w.scope, Len(w.c.V)) \ done : x = n \/ \E i \in 1..Len(n) : n[i] < x[i] /\ \A j \in 1..(i - 1) : n[j] = x[j])
          /\ done' = done \cup {n} /\ UNCHANGED w
          /\ at' = at \cup {VAdd(w.c.P[i], Translate(Lof(w.c), n)) : i \in 1..Len(w.c.P)}
Spec == Init /\ [][Next]_vars
Distinct == w.k = "lat" => Cardinality(at) = Cardinality(done) * Len(w.c.P)
Whole == (w.k = "lat" /\ done = Steps(w.scope, Len(w.c.V))) =>
           at = Shown(Lof(w.c), w.scope) /\ Cardinality(at) = ShownCount(Lof(w.c), w.scope)
PatchLaw == w.k = "patch" =>
  LET S == Patch(w.c, w.n0, w.n1)
      z == CASE w.c = "square" -> 4 [] w.c = "triangle" -> 6 [] w.c = "honeycomb" -> 3 [] OTHER -> 4
      E == IF Cardinality(S) > 1 THEN Links(w.c, S) ELSE {}
  IN /\ Cardinality(S) = (2 * w.n0 + 1) * (2 * w.n1 + 1) * Len(CommonCell(w.c))
     /\ \A p \in S : Cardinality({e \in E : p \in e}) <= z
     /\ Cardinality(S) > 1 => PatchLinks(w.c, w.n0, w.n1) = E
     /\ (w.n0 > 0 /\ w.n1 > 0) => Cardinality({e \in E : <<0, 0>> \in e}) = z
BZLaw == w.k = "bz" =>
  LET G == w.c
      Bi == <<<<G[2][2], -G[1][2]>>, <<-G[1][2], G[1][1]>>>>    \* Gram matrix of the b_i times det
      t == Turned(G, w.n)
  IN /\ Inner(Bi, w.n, t) = 0
     /\ Q(Bi, t) = Det(G, 2) * Q(Bi, w.n)
Emit == done = {} => PrintT("GEN " \o ToJson([g |-> w.k, w |-> w]))
=============================================================================
