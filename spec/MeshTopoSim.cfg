SPECIFICATION SimSpec
CONSTANTS MaxLen = 10 Emit = TRUE
INVARIANTS BuiltOK EmitHist
CHECK_DEADLOCK FALSE
