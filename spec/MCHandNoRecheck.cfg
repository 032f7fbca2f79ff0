SPECIFICATION Spec
CONSTANTS
  Frames = 3
  MaxStops = 2
  NoWake = FALSE
  NoRecheck = TRUE
  KeepLock = FALSE
INVARIANTS InOrder Owned
PROPERTIES Answered Ends
CHECK_DEADLOCK FALSE
