SPECIFICATION MCSpec
CONSTANTS Names = {1, 2}
          Values = {1, 2}
INVARIANTS TypeOK Faithful Write
PROPERTY Separate2
CHECK_DEADLOCK FALSE
