SPECIFICATION GSpec
INVARIANT GOut
CHECK_DEADLOCK FALSE
