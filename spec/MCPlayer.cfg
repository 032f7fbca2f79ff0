SPECIFICATION Spec
CONSTANTS
  Times <- F1
  Step = 5000
  Until = 30000
  MaxKeys = 2
INVARIANTS Sane NotEarly Exact
PROPERTY Steps
CHECK_DEADLOCK FALSE
