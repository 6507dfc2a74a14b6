SPECIFICATION Spec
CONSTANTS Steps = 6
INVARIANTS Open Once Own Emit
PROPERTIES Restores
CHECK_DEADLOCK FALSE
