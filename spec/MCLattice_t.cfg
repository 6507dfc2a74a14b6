SPECIFICATION Spec
CONSTANTS Big = 6  MaxPts = 4  MaxStep = 3  EmitGen = FALSE
VIEW ViewD
INVARIANTS Laws
CHECK_DEADLOCK FALSE
