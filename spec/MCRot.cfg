SPECIFICATION Spec
CONSTANTS Steps = {15, 30, 45}
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
