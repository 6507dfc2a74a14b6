SPECIFICATION Spec
CONSTANTS Grid <- GridC
INVARIANTS Swapped Ordinate Undetermined Emit
CHECK_DEADLOCK FALSE
