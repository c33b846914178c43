SPECIFICATION Spec
CONSTANTS
  PIECES = 3
  BUG = "none"
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
