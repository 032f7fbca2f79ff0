SPECIFICATION Spec
CONSTANTS Raw = FALSE
 Utf = TRUE
 Known = TRUE
 MaxOut = 2
 MaxIn = 1
 MaxSize = 2
 Variant = ""
INVARIANTS Allowed Whole
CHECK_DEADLOCK FALSE
