SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS One AnyCase Last Under Asked Unknown Invented
CHECK_DEADLOCK FALSE
