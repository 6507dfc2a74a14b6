SPECIFICATION Spec
CONSTANTS NSt = 2  MaxLen = 3  Coeffs <- MCCoeffs  EmitGen = TRUE
INVARIANTS AdjLaw MulLaw ScaleLaw NumLaw Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE
