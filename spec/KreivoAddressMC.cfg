SPECIFICATION Spec
CONSTANTS Numbers = {0, 1, 5, 255, 256, 700, 65535}
          Gifts = 2
VIEW View
PROPERTY EdgesHold
INVARIANTS Numbered Inverse
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
