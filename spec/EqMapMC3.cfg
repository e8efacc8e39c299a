SPECIFICATION Spec
CONSTANTS
 N = 4
 NP = 1
 NE = 2
 Vals = {1, 2}
INVARIANT Correct
CHECK_DEADLOCK FALSE
