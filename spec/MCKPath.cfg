SPECIFICATION Spec
CONSTANTS Grid = {0, 1, 3}  MaxAnch = 3  MaxNum = 3
INVARIANTS IndexLaw MinLaw Emit
CHECK_DEADLOCK FALSE
