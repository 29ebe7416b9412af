SPECIFICATION Spec
INVARIANT Inv
PROPERTY Step
CONSTRAINT Small
CONSTANTS
  MaxRows = 1
CHECK_DEADLOCK FALSE
