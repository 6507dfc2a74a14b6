SPECIFICATION Spec
CONSTANTS NS = 2  MaxLen = 3  EmitGen = TRUE
INVARIANTS ProductLaw AdjointLaw Su2 Commute DotLaw SchwingerLaw Emit
CHECK_DEADLOCK FALSE
