SPECIFICATION SimSpec
CONSTANTS
 MaxCells = 1
 MaxOps = 1
 MaxHist = 6
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
