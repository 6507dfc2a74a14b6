SPECIFICATION Spec
CONSTANTS N = 4
 A = {0, 2}
 B = {0, 1}
 F = {0, 1}
INVARIANTS Laws
CHECK_DEADLOCK FALSE
