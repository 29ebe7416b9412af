SPECIFICATION Spec
INVARIANT PInv
CONSTANTS
  PS = 12
  MaxMeta = 2
  Sizes = {1, 2, 4}
  MaxRows = 3
CHECK_DEADLOCK FALSE
