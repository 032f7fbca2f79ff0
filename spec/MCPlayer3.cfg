SPECIFICATION Spec
CONSTANTS
  Times <- F1
  Step = 5000
  Until = 60000
  MaxKeys = 3
INVARIANTS Sane NotEarly Exact
PROPERTY Steps
CHECK_DEADLOCK FALSE
