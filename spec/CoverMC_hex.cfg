SPECIFICATION Spec
CONSTANTS
  Start = "hex"
  MaxOps = 1
  MaxRef = 1
  MaxHist = 0
INVARIANTS Cover1 Conforms Kept OneLevel
CHECK_DEADLOCK FALSE
