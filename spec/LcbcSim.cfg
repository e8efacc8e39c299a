SPECIFICATION SimSpec
CONSTANTS
 NVar = 2
 ND = 3
 MaxOps = 3
 MaxHist = 8
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
