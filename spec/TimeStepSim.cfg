SPECIFICATION SimSpec
CONSTANTS TOL = 0
 C <- MC_C
 T1 = 100
 SCHED <- MC_Sched0
 NT = 0
 MAXLEN = 16
INVARIANTS EmitHist
CHECK_DEADLOCK FALSE
