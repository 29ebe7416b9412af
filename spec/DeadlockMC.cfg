SPECIFICATION Spec
INVARIANT MInv
CONSTANTS
  N = 3
CHECK_DEADLOCK FALSE
