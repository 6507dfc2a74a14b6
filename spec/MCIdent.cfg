SPECIFICATION Spec
CONSTANTS MaxLen = 3  EmitGen = TRUE
INVARIANTS Total Transitive Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE
