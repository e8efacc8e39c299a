SPECIFICATION Spec
CONSTANTS
  Norms = {0, 1, 2, 4}
  IMax = 3
  LsMin = {2, 4}
  Reds = {2, 4}
  MaxHist = 0
INVARIANTS Truth Limit GaveUp Counts Reduced Bounded Linear
CHECK_DEADLOCK FALSE
