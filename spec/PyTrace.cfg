SPECIFICATION PySpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
