SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS AsSpecified NotShortened NotBefore NoNeed
CHECK_DEADLOCK FALSE
