SPECIFICATION Spec
CONSTANTS
 N = 4
 NP = 2
 NE = 1
 Vals = {1}
INVARIANT Correct
CHECK_DEADLOCK FALSE
