SPECIFICATION Spec
CONSTANTS Streams <- S3
 Max = 1
 Cap = 1
 Spurious = TRUE
 Keep = 1
 Small = {}
INVARIANTS Bytes Mutex CountOk NothingLost
PROPERTIES Refines Ends Taken
CHECK_DEADLOCK FALSE
