SPECIFICATION Spec
CONSTANTS
  Start = "tet"
  MaxOps = 2
  MaxRef = 4
  MaxHist = 0
INVARIANTS Cover1 Conforms Kept OneLevel
CHECK_DEADLOCK FALSE
