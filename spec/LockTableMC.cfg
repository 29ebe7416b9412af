SPECIFICATION Spec
INVARIANT MInv
PROPERTY Keep
CONSTRAINT Small
CONSTANTS
  NT = 3
  MaxQ = 5
CHECK_DEADLOCK FALSE
