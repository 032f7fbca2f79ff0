SPECIFICATION Spec
CONSTANT MaxItems = 3
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
