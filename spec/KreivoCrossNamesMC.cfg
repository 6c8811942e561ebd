SPECIFICATION Spec
CONSTANTS Topic = "names"
          Deep = 2
          Steps = 1
VIEW View
PROPERTY EdgesHold
INVARIANTS Distinct RoundTrip
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
