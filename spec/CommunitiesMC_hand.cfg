CONSTANTS Scenario = "hand"
          Size = 1
SPECIFICATION Spec
VIEW View
INVARIANTS OneAdmin_ Placed Totals Tallies Freezes Supply
PROPERTIES EdgesHold
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
