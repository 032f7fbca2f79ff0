SPECIFICATION Spec
CONSTANT MaxLines = 3
INVARIANTS Same Right
CHECK_DEADLOCK FALSE
