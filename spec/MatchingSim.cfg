SPECIFICATION SimSpec
CONSTANTS
  Side = 1
  NP = 1
  MaxHist = 14
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
