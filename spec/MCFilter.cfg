SPECIFICATION Spec
CONSTANTS Streams <- S2
 Max = 3
 Cap = 2
 Spurious = TRUE
 Keep = 3
 Small = {}
INVARIANTS Bytes Mutex CountOk NothingLost
PROPERTIES Refines Ends Taken
CHECK_DEADLOCK FALSE
