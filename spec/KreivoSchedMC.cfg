SPECIFICATION Spec
CONSTANTS Tasks = 2
          Depth = 3
VIEW View
PROPERTY EdgesHold
INVARIANTS Ordered Distinct
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
