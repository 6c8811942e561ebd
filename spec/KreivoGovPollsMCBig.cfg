SPECIFICATION Spec
CONSTANTS Topic = "polls"
          Steps = 3
VIEW View
PROPERTY EdgesHold
INVARIANTS Kept OneTrack TracksExist OneAdmin
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
