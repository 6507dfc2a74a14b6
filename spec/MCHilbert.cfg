SPECIFICATION Spec
CONSTANTS Modes = {0, 1, 2, 3}  EmitGen = TRUE
INVARIANTS Sound Count Emit
CHECK_DEADLOCK FALSE
