SPECIFICATION Spec
CONSTANTS Depth = 4
VIEW View
PROPERTY EdgesHold Once Signed Mine Counted
INVARIANTS Total Bounded
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
