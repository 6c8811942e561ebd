SPECIFICATION Spec
CONSTANTS Polls = 2
          Points = 2000
VIEW View
PROPERTY EdgesHold
INVARIANTS OneToOne OnTracks
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
