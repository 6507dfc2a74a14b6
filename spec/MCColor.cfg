SPECIFICATION Spec
INVARIANTS Shows Resets Agree Emit
CHECK_DEADLOCK FALSE
