SPECIFICATION Spec
CONSTANTS
  K = 3
  NS = {1, 2, 4, 5}
  MODES = {"together", "object", "path"}
  KINDS = {"copy", "steps"}
  QLEN = 6
  BUG = "none"
  HIST = TRUE
INVARIANTS Report
CHECK_DEADLOCK FALSE
