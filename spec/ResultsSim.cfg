SPECIFICATION SimSpec
CONSTANTS
 MaxStep = 5
 MaxOps = 12
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
