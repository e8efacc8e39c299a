SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxWrites = 2
  MaxHist = 0
INVARIANTS Fresh Right Stripped Once Members Apart
CHECK_DEADLOCK FALSE
