CONSTANTS ByteBase = 6
          Width = 4
          TextBase = 4
          SepAt = 2
          MaxText = 6
SPECIFICATION Spec
INVARIANTS RoundTrip NoConfusion TextCanonical LongEnough
CHECK_DEADLOCK FALSE
