SPECIFICATION Spec
CONSTANTS
  Desc = "2_4"
  K = 3
  NV = 6
  NC = 2
  MaxHist = 0
INVARIANTS Shared Count Unity
CHECK_DEADLOCK FALSE
