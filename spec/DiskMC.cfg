SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  Pages = {1, 2}
  MaxV = 3
  Cap = 1
  Syncs = TRUE
CHECK_DEADLOCK FALSE
