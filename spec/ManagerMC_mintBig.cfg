CONSTANTS Scenario = "mint"
          Size = 4
SPECIFICATION Spec
VIEW View
INVARIANTS Whole Counted Once Kept
PROPERTIES EdgesHold
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
