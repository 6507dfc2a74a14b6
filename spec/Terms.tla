-------------------------------- MODULE Terms --------------------------------
(* The algebra of fermion operators, number operators and terms as a machine *)
(* over a store of named objects. An operator is <<site, spin, orbit, type>>  *)
(* with type CR or AN; a term is a string of operators, a coefficient and a   *)
(* declared class. Every public call of the library is one action: Val(env,c) *)
(* is what the call must answer and After(env,c) the store it must leave.     *)
EXTENDS Fock
KINDS == {"aoc", "num", "term"}
CLASSES == {"general", "hopping", "number", "Coulomb"}

StOf(op) == <<op[1], op[2], op[3]>>
Flip(op) == <<op[1], op[2], op[3], 1 - op[4]>>
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

AocObj(op) == [k |-> "aoc", ops |-> <<op>>, co |-> DOne, cls |-> "general"]
NumObj(st) == [k |-> "num", ops |-> <<st \o <<CR>>, st \o <<AN>>>>, co |-> DOne, cls |-> "number"]
TermObj(ops, co, cls) == [k |-> "term", ops |-> ops, co |-> co, cls |-> cls]

\* operator product of two objects, of an object and a number
MulObj(a, b) == TermObj(a.ops \o b.ops, DMul(a.co, b.co), "general")
ScaleObj(a, c) == TermObj(a.ops, DMul(a.co, c), "general")
DagOps(ops) == LET r == Rev(ops) IN [i \in 1..Len(r) |-> Flip(r[i])]
DagObj(a) == CASE a.k = "num" -> a
               [] a.k = "aoc" -> AocObj(Flip(a.ops[1]))
               [] OTHER -> TermObj(DagOps(a.ops), DConj(a.co), "general")

\* shape predicate behind the compatibility query
CompatShape(ops, cls) ==
  CASE cls = "hopping" -> Len(ops) = 2 /\ ops[1][4] = CR /\ ops[2][4] = AN /\ StOf(ops[1]) # StOf(ops[2])
    [] cls = "number"  -> Len(ops) = 2 /\ ops[1][4] = CR /\ ops[2][4] = AN /\ StOf(ops[1]) = StOf(ops[2])
    [] cls = "Coulomb" -> /\ Len(ops) = 4 /\ ops[1][4] = CR /\ ops[2][4] = AN /\ ops[3][4] = CR /\ ops[4][4] = AN
                          /\ StOf(ops[1]) = StOf(ops[2]) /\ StOf(ops[3]) = StOf(ops[4])
    [] OTHER -> TRUE

\* the defining formulas of the factories; st0 and st1 are <<site, spin, orbit>>
FactoryOps(f, st0, st1) ==
  CASE f = "Creator"     -> <<st0 \o <<CR>>>>
    [] f = "Annihilator" -> <<st0 \o <<AN>>>>
    [] f = "CP"          -> <<st0 \o <<CR>>, st0 \o <<AN>>>>
    [] f = "Hopping"     -> <<st0 \o <<CR>>, st1 \o <<AN>>>>
    [] f = "PairingH"    -> <<st0 \o <<AN>>, st1 \o <<AN>>>>
    [] f = "PairingP"    -> <<st0 \o <<CR>>, st1 \o <<CR>>>>
    [] f = "Hubbard"     -> LET u == <<st0[1], 1, st0[3]>>
                                d == <<st0[1], 0, st0[3]>>
                            IN <<u \o <<CR>>, u \o <<AN>>, d \o <<CR>>, d \o <<AN>>>>
    [] f = "Coulomb"     -> <<st0 \o <<CR>>, st0 \o <<AN>>, st1 \o <<CR>>, st1 \o <<AN>>>>

\* Normal order: <<possible, canonical string, parity>>; lt orders states.
Blocked(ops) == {p \in (1..Len(ops)) \X (1..Len(ops)) :
                   p[1] < p[2] /\ ops[p[1]][4] = AN /\ ops[p[2]][4] = CR /\ StOf(ops[p[1]]) = StOf(ops[p[2]])}
OpBefore(a, b, lt(_, _)) ==
  IF a[4] # b[4] THEN a[4] = CR
  ELSE IF a[4] = CR THEN lt(StOf(a), StOf(b)) ELSE lt(StOf(b), StOf(a))
InvPairs(ops, lt(_, _)) == {p \in (1..Len(ops)) \X (1..Len(ops)) :
                              p[1] < p[2] /\ OpBefore(ops[p[2]], ops[p[1]], lt)}
\* stable rank of position i in the canonical order
Rank(ops, i, lt(_, _)) == 1 + Cardinality({j \in 1..Len(ops) :
      OpBefore(ops[j], ops[i], lt) \/ (j < i /\ ~OpBefore(ops[i], ops[j], lt))})
Canonical(ops, lt(_, _)) == [r \in 1..Len(ops) |-> ops[CHOOSE i \in 1..Len(ops) : Rank(ops, i, lt) = r]]

\* Matrices: pos maps states to bit positions.
Positions(ops, pos) == [i \in 1..Len(ops) |-> <<pos[StOf(ops[i])], ops[i][4]>>]
Known(ops, pos) == \A i \in 1..Len(ops) : StOf(ops[i]) \in DOMAIN pos
TermMat(o, pos, right, left) == Denote(Positions(o.ops, pos), o.co, right, left)
=============================================================================
