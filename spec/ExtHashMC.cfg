SPECIFICATION Spec
INVARIANT MInv
CONSTANTS
  Max = 2
  Cap = 1
  NK = 6
CHECK_DEADLOCK FALSE
