SPECIFICATION Spec
CONSTANTS Big = 6  MaxPts = 4  MaxStep = 2  EmitGen = TRUE
VIEW ViewD
INVARIANTS Emit
CHECK_DEADLOCK FALSE
