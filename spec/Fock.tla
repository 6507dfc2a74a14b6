-------------------------------- MODULE Fock --------------------------------
(* Occupation-number machine. The state is one signed ket; the actions apply  *)
(* one creation or annihilation operator (Jordan-Wigner ordering: one sign    *)
(* for every occupied state with a lower number).                             *)
EXTENDS Dyadic, TLC
CR == 1
AN == 0

Ket(S)  == [occ |-> S, sg |-> 0, ok |-> TRUE]
DeadKet == [occ |-> {}, sg |-> 0, ok |-> FALSE]
Below(S, i) == Cardinality({j \in S : j < i})

\* one operator <<i, type>> applied to a ket
Act(k, op) ==
  LET i == op[1] IN
  IF ~k.ok \/ ((i \in k.occ) <=> (op[2] = CR)) THEN DeadKet
  ELSE [occ |-> IF op[2] = CR THEN k.occ \cup {i} ELSE k.occ \ {i},
        sg  |-> (k.sg + Below(k.occ, i)) % 2, ok |-> TRUE]

\* a string of operators acts from the right
RECURSIVE ActFrom(_, _, _)
ActFrom(ops, n, k) == IF n = 0 \/ ~k.ok THEN k ELSE ActFrom(ops, n - 1, Act(k, ops[n]))
ActString(ops, k) == ActFrom(ops, Len(ops), k)

(* Bases are sequences of distinct occupied sets (ascending as integers).     *)
RowOf(basis) == LET D == {basis[r] : r \in 1..Len(basis)}
                IN [S \in D |-> CHOOSE r \in 1..Len(basis) : basis[r] = S]

\* the full occupation basis over modes 0..n-1, ascending
FullBasis(n) == [r \in 1..Pow2(n) |-> {j \in 0..(n - 1) : ((r - 1) \div Pow2(j)) % 2 = 1}]

\* Denotation of coefficient * string between two bases.
\* "leaves" = some image is outside the left basis.
Denote(ops, co, right, left) ==
  LET img == [c \in 1..Len(right) |-> ActString(ops, Ket(right[c]))]
      alive == {c \in 1..Len(right) : img[c].ok}
      dom == {left[r] : r \in 1..Len(left)}
  IN IF \E c \in alive : img[c].occ \notin dom THEN [leaves |-> TRUE, m |-> {}]
     ELSE LET row == RowOf(left) IN
          [leaves |-> FALSE,
           m |-> IF co = DZero THEN {} ELSE
                 {<<row[img[c].occ] - 1, c - 1, IF img[c].sg = 1 THEN DNeg(co) ELSE co>> : c \in alive}]
=============================================================================
