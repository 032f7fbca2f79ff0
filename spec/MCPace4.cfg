SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS AsSpecified NotShortened NotBefore NoNeed
CHECK_DEADLOCK FALSE
