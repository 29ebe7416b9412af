SPECIFICATION Spec
CONSTANTS
 Ops = {1, 2}
 Prios = {5, 7}
 Workers = {1, 2}
 SubFirst = TRUE
 Stops = 1
INVARIANT Once Own NoneLost NotTwice WaitRight
PROPERTY Final BestFirst AllDecided WaiterServed
CHECK_DEADLOCK FALSE
