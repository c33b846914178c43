SPECIFICATION Spec
CONSTANTS
  K = 2
  NS = {1, 2, 3}
  MODES = {"together", "object", "path"}
  KINDS = {"copy", "steps"}
  QLEN = 2
  BUG = "none"
  HIST = FALSE
INVARIANTS Outcome Result
PROPERTIES Ends
CHECK_DEADLOCK FALSE
