SPECIFICATION Spec
CONSTANTS Grid = {0, 1, 2}
 MaxV = 7
INVARIANTS Pick Start Small Emit
CHECK_DEADLOCK FALSE
