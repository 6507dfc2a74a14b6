SPECIFICATION Spec
CONSTANTS N = 3
 A = {0, 2}
 B = {0, 1}
 F = {0, 1, 3}
INVARIANTS Laws
CHECK_DEADLOCK FALSE
