SPECIFICATION Spec
CONSTANTS
  Start = "tri"
  MaxOps = 3
  MaxRef = 4
  MaxHist = 0
INVARIANTS Cover1 Conforms Kept OneLevel
CHECK_DEADLOCK FALSE
