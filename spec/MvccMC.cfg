SPECIFICATION Spec
INVARIANTS ReadsRight LatestRight WholeCommits
PROPERTIES Stable WmMonotone
CONSTANTS
  NT = 3
  NR = 2
  MaxW = 2
  GcKeepsRunning = TRUE
  StampUnderLock = TRUE
CHECK_DEADLOCK FALSE
