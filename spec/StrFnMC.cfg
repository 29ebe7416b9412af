SPECIFICATION Spec
CONSTANTS
  L = 3
  LP = 3
INVARIANTS Cut Lay Find Trims Case Likes
CHECK_DEADLOCK FALSE
