SPECIFICATION Spec
INVARIANT Inv
PROPERTY Step
CONSTRAINT Small
CONSTANTS
  MaxRows = 2
  MaxVal = 3
  Declared = FALSE
CHECK_DEADLOCK FALSE
