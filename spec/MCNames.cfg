SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS One AnyCase Last Under Asked Unknown Invented
CHECK_DEADLOCK FALSE
