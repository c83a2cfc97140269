SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  Big = {1000, 1023, 1024, 1025, 1200, 2000, 4000, 10000}
INVARIANT InBudget
CHECK_DEADLOCK FALSE
