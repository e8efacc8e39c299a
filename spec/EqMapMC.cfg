SPECIFICATION Spec
CONSTANTS
 N = 5
 NP = 2
 NE = 0
 Vals = {1}
INVARIANT Correct
CHECK_DEADLOCK FALSE
