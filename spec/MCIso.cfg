SPECIFICATION Spec
CONSTANTS Inputs = 2
 Queries = 3
 Steps = 6
INVARIANTS Stable Emit
PROPERTIES Private Apart
CHECK_DEADLOCK FALSE
