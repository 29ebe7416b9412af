SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  Pool = 2
  NPages = 3
  NH = 2
  NV = 2
CHECK_DEADLOCK FALSE
