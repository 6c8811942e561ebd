CONSTANTS Scenario = "reg"
          Size = 2
SPECIFICATION Spec
VIEW View
INVARIANTS Whole Counted Once Kept
PROPERTIES EdgesHold
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
