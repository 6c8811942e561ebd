SPECIFICATION Spec
CONSTANTS Kinds = {"spend", "add", "coin", "lax", "raise", "lower", "kill", "meddle", "alien", "pay"}
          Waits = {1, 2, 4, 10, 100800}
          Starts = {1, 2, 3, 4, 5, 6}
          Depth = 4
VIEW View
PROPERTY EdgesHold Merited
INVARIANTS Orderly Solvent Warranted Counted
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
