SPECIFICATION Spec
CONSTANT MaxOps = 1
INVARIANTS Whole Ordered Identifies Daggered Numbers Emit
CHECK_DEADLOCK FALSE
