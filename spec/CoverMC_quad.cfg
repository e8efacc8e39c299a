SPECIFICATION Spec
CONSTANTS
  Start = "quad"
  MaxOps = 2
  MaxRef = 1
  MaxHist = 0
INVARIANTS Cover1 Conforms Kept OneLevel
CHECK_DEADLOCK FALSE
