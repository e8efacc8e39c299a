SPECIFICATION Spec
CONSTANTS
  Side = 1
  NP = 2
  MaxHist = 0
INVARIANTS Current Exact Unique Inverse Scale
CHECK_DEADLOCK FALSE
