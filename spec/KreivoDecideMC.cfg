SPECIFICATION Spec
CONSTANTS Kinds = {"spend", "coin", "raise", "meddle", "alien"}
          Waits = {1, 2, 4, 10, 100800}
          Starts = {1, 2, 3, 4, 5, 6}
          Depth = 3
VIEW View
PROPERTY EdgesHold Merited
INVARIANTS Orderly Solvent Warranted Counted
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
