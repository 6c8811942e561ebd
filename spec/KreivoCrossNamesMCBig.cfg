SPECIFICATION Spec
CONSTANTS Topic = "names"
          Deep = 3
          Steps = 2
VIEW View
PROPERTY EdgesHold
INVARIANTS Distinct RoundTrip
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
