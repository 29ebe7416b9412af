SPECIFICATION Spec
INVARIANT MInv
CONSTANTS
  Order = 3
  NK = 7
CHECK_DEADLOCK FALSE
