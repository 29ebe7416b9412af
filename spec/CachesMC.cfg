SPECIFICATION Spec
CONSTANTS K = {1, 2, 3}
          V = {1, 2}
          MaxCap = 2
          MaxClk = 6
CONSTRAINT Bound
INVARIANT Inv
PROPERTY Faithful
CHECK_DEADLOCK FALSE
