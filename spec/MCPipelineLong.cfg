SPECIFICATION Spec
CONSTANTS
  Scenarios <- Long
  QLEN = 6
  BATCH = 1048576
  WATERMARK = 6291456
  FAULTS = 1
  KILLS = 0
  BUG = "none"
  HIST = FALSE
INVARIANTS QueueBound FlightOK HopelessFails Outcome Result
PROPERTIES Refines Terminates
CHECK_DEADLOCK FALSE
