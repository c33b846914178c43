SPECIFICATION Spec
CONSTANTS
  N = 8
  F = 1
  P = 1
  B = 1
  Q = 2
  BUG = "none"
INVARIANTS Bounded Work Complete
PROPERTIES Ends
CHECK_DEADLOCK FALSE
