SPECIFICATION Spec
CONSTANTS Topic = "assets"
          Deep = 4
          Steps = 2
VIEW View
PROPERTY EdgesHold
INVARIANTS Distinct RoundTrip
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
