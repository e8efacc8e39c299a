SPECIFICATION Spec
CONSTANTS
  Start = "tri"
  MaxOps = 2
  MaxRef = 1
  MaxHist = 0
INVARIANTS Cover1 Conforms Kept OneLevel
CHECK_DEADLOCK FALSE
