CONSTANTS Scenario = "core"
          MaxBlk = 5
SPECIFICATION Spec
VIEW View
INVARIANTS Required_ Named_ Conserved Never
PROPERTIES EdgesHold
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
