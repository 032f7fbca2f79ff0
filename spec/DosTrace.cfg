SPECIFICATION Spec
CONSTANTS W = 80
 H = 25
INVARIANT Done
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
