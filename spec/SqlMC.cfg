SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  Dom = {0, 1, 2}
  MaxA = 2
  MaxB = 2
CHECK_DEADLOCK FALSE
