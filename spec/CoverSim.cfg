SPECIFICATION SimSpec
CONSTANTS
  Start = "tri"
  MaxOps = 1
  MaxRef = 1
  MaxHist = 4
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
