INIT Init
NEXT Next
INVARIANTS NumsOK ShiftsOK SmallOK
CHECK_DEADLOCK FALSE
