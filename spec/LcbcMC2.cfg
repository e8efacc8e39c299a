SPECIFICATION Spec
CONSTANTS
 NVar = 2
 ND = 3
 MaxOps = 3
 MaxHist = 0
INVARIANTS Numbered Count TiesToFree
CHECK_DEADLOCK FALSE
