SPECIFICATION Spec
CONSTANTS F = {1, 2, 3}
          K = 2
          MaxClk = 6
CONSTRAINT Bound
INVARIANT Inv
CHECK_DEADLOCK FALSE
