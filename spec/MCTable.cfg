SPECIFICATION Spec
CONSTANTS MaxLen = 3  EmitGen = TRUE
INVARIANTS OkLaw Inverse Emit
CHECK_DEADLOCK FALSE
