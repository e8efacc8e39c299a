SPECIFICATION SimSpec
CONSTANTS MaxDefs = 4 Emit = TRUE
INVARIANTS AllConsistent EmitHist
CHECK_DEADLOCK FALSE
