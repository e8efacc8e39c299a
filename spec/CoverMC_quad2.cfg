SPECIFICATION Spec
CONSTANTS
  Start = "quad"
  MaxOps = 2
  MaxRef = 2
  MaxHist = 0
INVARIANTS Cover1 Conforms Kept OneLevel
CHECK_DEADLOCK FALSE
