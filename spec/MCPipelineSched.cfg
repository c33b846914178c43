SPECIFICATION Spec
CONSTANTS
  Scenarios <- Replay
  QLEN = 6
  BATCH = 1048576
  WATERMARK = 6291456
  FAULTS = 0
  KILLS = 0
  BUG = "none"
  HIST = TRUE
INVARIANTS QueueBound Report
CHECK_DEADLOCK FALSE
