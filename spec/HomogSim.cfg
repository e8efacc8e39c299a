SPECIFICATION SimSpec
CONSTANTS
 Names = {1}
 NWorkers = 1
 MaxHist = 10
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
