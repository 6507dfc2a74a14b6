SPECIFICATION Spec
CONSTANTS MaxN = 36
 MaxEnum = 4
INVARIANTS Pascal Symmetric Exact Orders Multi Enumerated Emit
CHECK_DEADLOCK FALSE
