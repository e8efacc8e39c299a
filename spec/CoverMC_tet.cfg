SPECIFICATION Spec
CONSTANTS
  Start = "tet"
  MaxOps = 1
  MaxRef = 1
  MaxHist = 0
INVARIANTS Cover1 Conforms Kept OneLevel
CHECK_DEADLOCK FALSE
