SPECIFICATION Spec
CONSTANTS
 MaxCells = 5
 MaxOps = 3
 MaxHist = 1
INVARIANTS Same OmitOk Stable
CHECK_DEADLOCK FALSE
