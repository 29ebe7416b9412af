SPECIFICATION Spec
CONSTANTS
  N = 9
  Base <- SmallBase
  Unit <- SmallUnit
INVARIANTS Arithmetic TotalNum TotalStr Decided
CHECK_DEADLOCK FALSE
