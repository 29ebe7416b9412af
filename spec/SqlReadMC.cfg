SPECIFICATION Spec
INVARIANT Inv
CONSTRAINT Small
CONSTANTS
  MaxRows = 3
  MaxVal = 3
  MaxCommits = 3
CHECK_DEADLOCK FALSE
