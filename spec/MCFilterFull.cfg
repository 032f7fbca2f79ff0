SPECIFICATION Spec
CONSTANTS Streams <- S2
 Max = 3
 Cap = 1
 Spurious = TRUE
 Keep = 1
 Small <- A
INVARIANTS Bytes Mutex CountOk NothingLost
PROPERTIES Refines Ends Taken
CHECK_DEADLOCK FALSE
