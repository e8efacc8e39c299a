SPECIFICATION SimSpec
CONSTANTS
 MaxNls = 8
 Steps = {2}
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
