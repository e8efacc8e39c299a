SPECIFICATION Spec
CONSTANTS
  Desc = "3_8"
  K = 3
  NV = 12
  NC = 2
  MaxHist = 0
INVARIANTS Shared Count Unity
CHECK_DEADLOCK FALSE
