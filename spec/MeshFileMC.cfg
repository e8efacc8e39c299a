SPECIFICATION Spec
CONSTANTS
 MaxCells = 4
 MaxOps = 2
 MaxHist = 1
INVARIANTS Same OmitOk Stable
CHECK_DEADLOCK FALSE
