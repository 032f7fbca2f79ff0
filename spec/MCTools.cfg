SPECIFICATION Spec
CONSTANTS
 MaxIn = 2
 MaxEv = 3
 Dests = {"good", "full", "none"}
INVARIANTS Right RightSums Forward
CHECK_DEADLOCK FALSE
