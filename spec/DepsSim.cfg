SPECIFICATION SimSpec
CONSTANTS N = 6 MaxDeps = 3 Emit = TRUE
INVARIANTS EmitHist
CHECK_DEADLOCK FALSE
