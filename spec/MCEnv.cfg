SPECIFICATION Spec
CONSTANTS Steps = 5
INVARIANTS Open Once Own Emit
PROPERTIES Restores
CHECK_DEADLOCK FALSE
