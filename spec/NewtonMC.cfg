SPECIFICATION Spec
CONSTANTS
  Norms = {0, 1, 2}
  IMax = 2
  LsMin = {2}
  Reds = {2}
  MaxHist = 0
INVARIANTS Truth Limit GaveUp Counts Reduced Bounded Linear
PROPERTY Terminates
CHECK_DEADLOCK FALSE
