SPECIFICATION SimSpec
CONSTANTS
  Deep = FALSE
  MaxHist = 16
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
