CONSTANTS
  BUG = "none"
SPECIFICATION Spec
INVARIANTS Restored Untouched
PROPERTIES Ends NotFatal
CHECK_DEADLOCK FALSE
