SPECIFICATION SimSpec
CONSTANTS
  MaxOps = 0
  Xs = {0}
  MaxHist = 14
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
