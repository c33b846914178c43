SPECIFICATION Spec
CONSTANTS
  NS = {1, 2, 3, 4}
  QLEN = 2
  BUG = "none"
  HIST = FALSE
INVARIANTS Outcome Result Quiet
PROPERTIES Ends
CHECK_DEADLOCK FALSE
