SPECIFICATION Spec
CONSTANTS ByteBase = 256
          Width = 8
          TextBase = 58
          SepAt = 5
          Depth = 3
          Blocks <- B
          Exts <- X
VIEW View
PROPERTY EdgesHold
INVARIANTS Unique NoTwins
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
