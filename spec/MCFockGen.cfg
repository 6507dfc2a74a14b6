SPECIFICATION Spec
CONSTANTS Modes = {0, 1, 2}  MaxLen = 3  EmitGen = TRUE
INVARIANTS StringAgrees Emit
CHECK_DEADLOCK FALSE
