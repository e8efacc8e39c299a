SPECIFICATION Spec
CONSTANTS TOL = 0
 C <- MC_C2
 T1 = 81
 SCHED <- MC_Sched
 NT = 0
 MAXLEN = 100
VIEW view
INVARIANTS Increasing StartsAtT0 OneStepPastEnd EndReached LimitKept WaitBounded BaseIsPrevious EachOnce NotEarly DueServed
PROPERTIES DtRule RetryRule
CHECK_DEADLOCK FALSE
