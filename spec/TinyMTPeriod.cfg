SPECIFICATION Spec
INVARIANT FullPeriod
PROPERTY Arrives
CHECK_DEADLOCK FALSE
