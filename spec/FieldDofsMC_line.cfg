SPECIFICATION Spec
CONSTANTS
  Desc = "1_2"
  K = 4
  NV = 4
  NC = 3
  MaxHist = 0
INVARIANTS Shared Count Unity
CHECK_DEADLOCK FALSE
