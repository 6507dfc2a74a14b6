SPECIFICATION Spec
CONSTANTS NSt = 2  MaxLen = 4  EmitGen = TRUE
INVARIANTS SameOperator EndsCanonical BlockedForever Emit
CHECK_DEADLOCK FALSE
