SPECIFICATION TSpec
POSTCONDITION TPost
CHECK_DEADLOCK FALSE
