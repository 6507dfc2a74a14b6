-------------------------------- MODULE Recip --------------------------------
(* First Brillouin zone of a full-rank lattice, in coefficients of the        *)
(* reciprocal vectors, units of 1/6. The zone is the set of points at least   *)
(* as close to the origin as to every other reciprocal lattice point; its     *)
(* faces, edges and corners are told apart by which of those bounds are tight.*)
EXTENDS Lattice
Six == 6
\* Gram matrix of V, and (up to scale) of the reciprocal vectors
GramV(G, V) == [i \in 1..Len(V) |-> [j \in 1..Len(V) |-> Inner(G, V[i], V[j])]]
RecGram(G, V) == LET M == GramV(G, V) IN
  [i \in 1..Len(V) |-> [j \in 1..Len(V) |-> Cof(M, Len(V), i, j)]]
Cube(d, m) == Tuples([i \in 1..d |-> m])
Gs(d) == Cube(d, 2) \ {[i \in 1..d |-> 0]}
Dist2(H, g) == Inner(H, g, g)
Slack(H, c, g) == Six * Dist2(H, g) - 2 * Inner(H, c, g)     \* >= 0 inside
InZone(H, d, c) == \A g \in Gs(d) : Slack(H, c, g) >= 0
Tight(H, d, c) == {g \in Gs(d) : Slack(H, c, g) = 0}
Rank2(a, b) == a # b /\ a # NegV(b) /\ \E i, j \in 1..Len(a) : a[i] * b[j] # a[j] * b[i]
\* greedy: any maximal independent subset has the size of the rank
RankOf(T, d) ==
  IF T = {} THEN 0
  ELSE LET a == CHOOSE x \in T : TRUE
           B == {x \in T : d >= 2 /\ Rank2(a, x)}
       IN IF B = {} THEN 1
          ELSE LET b == CHOOSE x \in B : TRUE
               IN IF d >= 3 /\ \E c \in T : Det(<<a, b, c>>, 3) # 0 THEN 3 ELSE 2
Corners(H, d) ==
  LET gs == TLCEval({<<g, Six * Dist2(H, g), [i \in 1..d |-> 2 * Dot(H[i], g)]>> : g \in Gs(d)})
  IN {c \in Cube(d, Six) : (\A g \in gs : Dot(g[3], c) <= g[2])
                            /\ RankOf({g[1] : g \in {h \in gs : Dot(h[3], c) = h[2]}}, d) = d}
RECURSIVE VSum(_, _)
VSum(S, d) == IF S = {} THEN [i \in 1..d |-> 0]
  ELSE LET x == CHOOSE y \in S : TRUE IN VAdd(x, VSum(S \ {x}, d))
\* centres of the boundary pieces on which exactly r independent bounds are
\* tight: r = 1 faces (edges of a polygon), r = 2 edges of a polyhedron, r = d corners
CentresOf(cs, H, d, r) ==
  IF r = d THEN cs
  ELSE LET tight == TLCEval([c \in cs |-> Tight(H, d, c)])
           cand == {T \in {tight[a] \cap tight[b] : a \in cs, b \in cs} : RankOf(T, d) = r}
           pts(T) == {c \in cs : T \subseteq tight[c]}
       IN {c \in {LET p == pts(T)
                      n == Cardinality(p)
                      v == VSum(p, d)
                  IN [i \in 1..d |-> IF v[i] % n = 0 THEN v[i] \div n ELSE 999] : T \in cand} : TRUE}
Centres(H, d, r) == LET cs == TLCEval(Corners(H, d)) IN CentresOf(cs, H, d, r)
=============================================================================
