CONSTANTS
  BUG = "none"
SPECIFICATION Spec
INVARIANTS Leak Own Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
