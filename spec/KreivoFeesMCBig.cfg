SPECIFICATION Spec
CONSTANTS Depth = 3
VIEW View
PROPERTY EdgesHold OnlySender
INVARIANTS Sums Alive Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
