CONSTANTS MaxN = 3 MaxM = 4
INIT Init
NEXT Next
INVARIANTS Thresholds Short Cdf Increasing Count2
CHECK_DEADLOCK FALSE
