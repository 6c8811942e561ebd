SPECIFICATION Spec
CONSTANTS Polls = 3
          Points = 20000
VIEW View
PROPERTY EdgesHold
INVARIANTS OneToOne OnTracks
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
