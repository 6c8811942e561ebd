SPECIFICATION Spec
CONSTANTS Motions = {"raise", "mint", "cancel", "own"}
          Waits = {1, 74, 75, 14400, 28800}
          Starts = {1, 2, 3, 4, 5, 6}
          Depth = 3
VIEW View
PROPERTY EdgesHold Merited
INVARIANTS Orderly Solvent Warranted
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
