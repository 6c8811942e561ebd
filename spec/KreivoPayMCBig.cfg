SPECIFICATION Spec
VIEW View
CONSTANTS
    Amounts = {0, 1, 33, 34, 99, 100, 101, 199, 200, 999}
    Mins = {1, 2, 5, 20}
INVARIANTS Conserved Exempt
PROPERTY EdgesHold
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
