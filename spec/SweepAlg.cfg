CONSTANTS MaxN = 3 MaxM = 3
SPECIFICATION Spec
INVARIANTS IndexOK WindowOK Answered OnlyAnswer NonNegative Terminates
CHECK_DEADLOCK FALSE
PROPERTY IsIndex
