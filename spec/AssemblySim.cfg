SPECIFICATION SimSpec
CONSTANTS
 NCell = 2
 Chunk = 1
 Rounds = 1
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
