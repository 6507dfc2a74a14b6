SPECIFICATION Spec
INVARIANTS Own Coarser Equiv Wider Scale ShellLaw KrylovLaw Emit
CHECK_DEADLOCK FALSE
