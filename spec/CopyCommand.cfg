SPECIFICATION Spec
CONSTANTS
  BUG = "none"
  Part = "choice"
  MaxN = 2
INVARIANTS True Complete Conforms NoData Inputs Exclusive BusyUntouched
PROPERTY Ends
