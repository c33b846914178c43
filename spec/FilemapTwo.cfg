CONSTANTS
  NB = 2
  BEYOND = 1
  BUFS = {1, 9}
  NQ = 2
  BUG = "none"
SPECIFICATION Spec
INVARIANTS Exact Bounded
CHECK_DEADLOCK FALSE
