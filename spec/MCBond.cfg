SPECIFICATION Spec
CONSTANTS EmitGen = TRUE
INVARIANTS Symmetric Reflexive Swap Emit
CHECK_DEADLOCK FALSE
