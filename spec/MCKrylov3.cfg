SPECIFICATION Spec
CONSTANTS N = 3
 Diag = {0, 1}
 Off <- OffR
 Vec <- VecR
INVARIANTS Laws Done Emit
CHECK_DEADLOCK FALSE
