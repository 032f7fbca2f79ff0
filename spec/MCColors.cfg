INIT Init
NEXT Next
CONSTANT Step = 51
INVARIANT Possible
CHECK_DEADLOCK FALSE
