CONSTANTS MaxN = 5 MaxM = 4
SPECIFICATION Spec
INVARIANTS Answered MiniFits Progress Landed Terminates
CHECK_DEADLOCK FALSE
PROPERTY IsIndex
