SPECIFICATION Spec
CONSTANTS Raw = FALSE
 Utf = TRUE
 Known = TRUE
 MaxOut = 3
 MaxIn = 2
 MaxSize = 3
 Variant = ""
INVARIANTS Allowed Whole
CHECK_DEADLOCK FALSE
