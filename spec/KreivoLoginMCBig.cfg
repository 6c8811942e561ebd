SPECIFICATION Spec
CONSTANTS Last = 7
          Depth = 14
VIEW View
PROPERTY EdgesHold
INVARIANTS KeysOfUsers Fresh
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
