SPECIFICATION Spec
CONSTANT MaxItems = 4
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
