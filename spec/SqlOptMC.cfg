SPECIFICATION Spec
INVARIANT Sound
PROPERTY Ends
CONSTANTS
  Dom = {0, 1, 2}
  MaxA = 2
  MaxB = 1
  MaxSteps = 2
  Wrong = FALSE
CHECK_DEADLOCK FALSE
