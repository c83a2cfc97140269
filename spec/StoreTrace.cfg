SPECIFICATION TSpec
CONSTANTS Names = {1, 2, 3, 4, 5, 6, 7, 8}
          Values = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 99}
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
