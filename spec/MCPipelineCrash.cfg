SPECIFICATION Spec
CONSTANTS
  Scenarios <- Crash
  QLEN = 6
  BATCH = 1048576
  WATERMARK = 6291456
  FAULTS = 1
  KILLS = 1
  BUG = "none"
  HIST = FALSE
INVARIANTS QueueBound FlightOK HopelessFails Outcome Result
PROPERTIES Refines Terminates
CHECK_DEADLOCK FALSE
