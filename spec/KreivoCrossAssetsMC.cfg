SPECIFICATION Spec
CONSTANTS Topic = "assets"
          Deep = 3
          Steps = 1
VIEW View
PROPERTY EdgesHold
INVARIANTS Distinct RoundTrip
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
