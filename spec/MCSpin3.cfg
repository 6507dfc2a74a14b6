SPECIFICATION Spec
CONSTANTS NS = 3  MaxLen = 2  EmitGen = FALSE
INVARIANTS ProductLaw AdjointLaw Su2 Commute DotLaw SchwingerLaw Emit
CHECK_DEADLOCK FALSE
