SPECIFICATION Spec
INVARIANTS Distinct Whole PatchLaw BZLaw Emit
CHECK_DEADLOCK FALSE
