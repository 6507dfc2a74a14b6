SPECIFICATION Spec
INVARIANTS OrderFree Hermitian Conserved Parity Permuted Emit
CHECK_DEADLOCK FALSE
