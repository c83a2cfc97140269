CONSTANTS MaxN = 4 MaxM = 3
SPECIFICATION Spec
INVARIANTS Answered MiniFits Progress Landed Terminates
CHECK_DEADLOCK FALSE
PROPERTY IsIndex
