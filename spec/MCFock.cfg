SPECIFICATION Spec
CONSTANTS Modes = {0, 1, 2, 3}  MaxLen = 4  EmitGen = FALSE
INVARIANTS SignsAgree StringAgrees NumberLaw CAR
CHECK_DEADLOCK FALSE
