SPECIFICATION SimSpec
CONSTANTS
 MaxLen = 16
 Keys = {1, 2}
 MaxTime = 2
INVARIANT EmitHist
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
