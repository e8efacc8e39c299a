SPECIFICATION SimSpec
CONSTANTS
 MaxLen = 9
 NumIds = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
INVARIANT EmitHist
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
