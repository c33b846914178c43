CONSTANTS
  NR = 3
  BUG = "none"
SPECIFICATION Spec
INVARIANTS NeverAcceptedHalf DoneIsGood FailedIsNotAccepted
CHECK_DEADLOCK FALSE
