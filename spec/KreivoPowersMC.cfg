SPECIFICATION Spec
CONSTANTS Numbers = {1, 5}
          Depth = 3
VIEW View
PROPERTY EdgesHold Ordinary
INVARIANTS Balanced Sound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
