INIT Init
NEXT Next
CONSTANT Step = 15
INVARIANT Possible
CHECK_DEADLOCK FALSE
