SPECIFICATION Spec
CONSTANTS
  D = 6
  Clients <- MClients
  Keys <- MKeys
INVARIANT Clean
PROPERTY Steps
CHECK_DEADLOCK FALSE
