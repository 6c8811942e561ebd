SPECIFICATION Spec
CONSTANTS Numbers = {0, 1, 2, 5, 255, 256, 257, 700, 32767, 32768, 65534, 65535}
          Gifts = 3
VIEW View
PROPERTY EdgesHold
INVARIANTS Numbered Inverse
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
