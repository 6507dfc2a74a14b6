SPECIFICATION Spec
CONSTANTS
 Diag <- DiagC
 Freq <- FreqC
INVARIANTS Solves Regular Reflect Mirror Emit
CHECK_DEADLOCK FALSE
