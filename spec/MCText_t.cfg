SPECIFICATION Spec
CONSTANT MaxOps = 2
INVARIANTS Whole Ordered Identifies Daggered Numbers
CHECK_DEADLOCK FALSE
