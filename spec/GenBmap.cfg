CONSTANTS
  BUG = "none"
  MaxI = 4
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
