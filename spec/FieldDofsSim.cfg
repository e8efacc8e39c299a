SPECIFICATION SimSpec
CONSTANTS
  Desc = "2_3"
  K = 2
  NV = 3
  NC = 2
  MaxHist = 9
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
