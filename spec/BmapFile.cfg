CONSTANTS
  BUG = "none"
  MaxI = 4
SPECIFICATION Spec
INVARIANTS Refused Early Documented Accepted
PROPERTY Ends
CHECK_DEADLOCK FALSE
