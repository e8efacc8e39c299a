SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  MaxHist = 0
INVARIANTS NoDupKeys Wins Keeps Nothing Again Same
CHECK_DEADLOCK FALSE
