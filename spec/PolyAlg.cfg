CONSTANTS MaxN = 4 MaxM = 3 Interval = 2
SPECIFICATION Spec
INVARIANTS Divides Answered Vanishes
CHECK_DEADLOCK FALSE
