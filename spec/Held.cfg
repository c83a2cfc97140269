CONSTANTS Kinds = {1, 2, 3} Closing = 3 MaxSteps = 1 Rounds = 9
SPECIFICATION Spec
INVARIANTS Verdict
CHECK_DEADLOCK FALSE
