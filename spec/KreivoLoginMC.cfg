SPECIFICATION Spec
CONSTANTS Last = 5
          Depth = 12
VIEW View
PROPERTY EdgesHold
INVARIANTS KeysOfUsers Fresh
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
