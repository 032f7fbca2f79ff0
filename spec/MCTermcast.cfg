SPECIFICATION Spec
CONSTANT MaxLines = 2
INVARIANTS Same Right
CHECK_DEADLOCK FALSE
