SPECIFICATION Spec
CONSTANTS NSt = 3  MaxLen = 4  EmitGen = FALSE
INVARIANTS SameOperator EndsCanonical BlockedForever Emit
CHECK_DEADLOCK FALSE
