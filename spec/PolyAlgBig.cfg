CONSTANTS MaxN = 5 MaxM = 4 Interval = 2
SPECIFICATION Spec
INVARIANTS Divides Answered Vanishes
CHECK_DEADLOCK FALSE
