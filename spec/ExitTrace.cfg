SPECIFICATION Spec
INVARIANTS Done NothingLost
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
