SPECIFICATION SimSpec
CONSTANTS MaxHist = 8
 Broken = FALSE
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
