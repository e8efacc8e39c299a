SPECIFICATION SimSpec
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
