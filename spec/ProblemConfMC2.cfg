SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  MaxHist = 0
INVARIANTS NoDupKeys Wins Keeps Nothing Again Same
CHECK_DEADLOCK FALSE
