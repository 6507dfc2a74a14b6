SPECIFICATION Spec
CONSTANTS Grid = {0, 1, 2, 3}
 MaxV = 4
INVARIANTS Pick Start Small Emit
CHECK_DEADLOCK FALSE
