CONSTANTS Parts = 1000
          Most = 14
          Values = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
          Elects = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}
SPECIFICATION Spec
INVARIANT Whole
PROPERTY Moves
CHECK_DEADLOCK FALSE
