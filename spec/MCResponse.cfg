SPECIFICATION Spec
INVARIANTS EomLaw FoldLaw MagnonLaw Emit
CHECK_DEADLOCK FALSE
