SPECIFICATION Spec
CONSTANT Stops = 2
INVARIANTS Back HasIt
CHECK_DEADLOCK FALSE
