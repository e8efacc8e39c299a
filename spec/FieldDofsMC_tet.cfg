SPECIFICATION Spec
CONSTANTS
  Desc = "3_4"
  K = 4
  NV = 5
  NC = 2
  MaxHist = 0
INVARIANTS Shared Count Unity
CHECK_DEADLOCK FALSE
