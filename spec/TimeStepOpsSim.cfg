SPECIFICATION SimSpec
CONSTANTS TOL = 0
 N = 5
 H = 1000
 MAXLEN = 14
INVARIANTS EmitHist
CHECK_DEADLOCK FALSE
