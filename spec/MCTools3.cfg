SPECIFICATION Spec
CONSTANTS
 MaxIn = 3
 MaxEv = 2
 Dests = {"good", "full", "none"}
INVARIANTS Right RightSums Forward
CHECK_DEADLOCK FALSE
