SPECIFICATION SimSpec
CONSTANTS
  Norms = {0}
  IMax = 0
  LsMin = {1}
  Reds = {2}
  MaxHist = 30
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
