SPECIFICATION Spec
CONSTANTS
 T = {1, 2}
 K = {1, 2}
 MaxLog = 6
 MaxCrash = 2
INVARIANT RowsRight Again LogKnown
CHECK_DEADLOCK FALSE
