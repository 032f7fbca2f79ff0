SPECIFICATION Spec
CONSTANTS W = 2
 H = 2
 MaxFrames = 2
INVARIANTS Kept Under Sizes Once
CHECK_DEADLOCK FALSE
