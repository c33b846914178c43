CONSTANTS
  BUG = "none"
  N = 3
  PIPE = 2
SPECIFICATION Spec
INVARIANTS Truthful Fair
PROPERTY Ends
CHECK_DEADLOCK FALSE
