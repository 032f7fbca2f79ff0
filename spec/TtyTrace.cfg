SPECIFICATION Spec
INVARIANT SpecOk
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
