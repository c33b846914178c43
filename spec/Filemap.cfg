CONSTANTS
  NB = 4
  BEYOND = 1
  BUFS = {1, 2, 9}
  NQ = 1
  BUG = "none"
SPECIFICATION Spec
INVARIANTS Exact Bounded Definition
PROPERTY Terminates
CHECK_DEADLOCK FALSE
