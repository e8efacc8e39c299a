SPECIFICATION SimSpec
CONSTANTS
  N = 0
  MaxWrites = 0
  MaxHist = 14
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
