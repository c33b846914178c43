SPECIFICATION Spec
CONSTANTS
  NS = {1, 3, 5, 9, 12}
  QLEN = 6
  BUG = "none"
  HIST = TRUE
INVARIANTS Report
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
