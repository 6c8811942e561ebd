CONSTANTS Parts = 100
          Most = 9
          Values = {1, 2, 4, 6, 8, 9, 11, 14}
          Elects = {1, 2, 5, 8, 11, 14, 15, 17, 18}
SPECIFICATION Spec
INVARIANT Whole
PROPERTY Moves
CHECK_DEADLOCK FALSE
