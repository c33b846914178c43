SPECIFICATION Spec
CONSTANTS
  MaxData = 3
  BUG = "none"
INVARIANTS NoFiles Sane
PROPERTIES NoProcesses
CHECK_DEADLOCK FALSE
