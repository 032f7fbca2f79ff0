SPECIFICATION Spec
CONSTANT N = 4
INVARIANT Laws
CHECK_DEADLOCK FALSE
