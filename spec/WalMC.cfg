SPECIFICATION Spec
CONSTANTS
 MaxRec = 4
 MaxRestart = 1
 Faults = TRUE
 Resume = TRUE
INVARIANT Seen SeenFile PersOk PersHolds Sane Follows
CHECK_DEADLOCK FALSE
