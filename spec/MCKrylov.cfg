SPECIFICATION Spec
CONSTANTS N = 2
 Diag = {0, 1, 2}
 Off <- OffC
 Vec <- VecC
INVARIANTS Laws Done Emit
CHECK_DEADLOCK FALSE
