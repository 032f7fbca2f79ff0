SPECIFICATION Spec
INVARIANT Consistent
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
