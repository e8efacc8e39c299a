SPECIFICATION Spec
CONSTANTS
 N = 4
 NP = 3
 NE = 0
 Vals = {1}
INVARIANT Correct
CHECK_DEADLOCK FALSE
