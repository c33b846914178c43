CONSTANTS
  BUG = "none"
  MaxN = 4
  MaxOps = 5
SPECIFICATION Spec
INVARIANTS Same Known Here
CHECK_DEADLOCK FALSE
