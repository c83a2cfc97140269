CONSTANTS R = 4 Naive = 3 MaxM = 9 MaxRequests = 3
SPECIFICATION Spec
INVARIANT Good
CHECK_DEADLOCK FALSE
PROPERTY IsIndex
