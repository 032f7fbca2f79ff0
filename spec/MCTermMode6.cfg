SPECIFICATION Spec
CONSTANT Stops = 6
INVARIANTS Back HasIt
CHECK_DEADLOCK FALSE
