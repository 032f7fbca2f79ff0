SPECIFICATION Spec
CONSTANTS
  Frames = 5
  MaxStops = 4
  NoWake = FALSE
  NoRecheck = FALSE
  KeepLock = FALSE
INVARIANTS InOrder Owned
PROPERTIES Answered Ends
CHECK_DEADLOCK FALSE
