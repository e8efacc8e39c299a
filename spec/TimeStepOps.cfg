SPECIFICATION Spec
CONSTANTS TOL = 0
 N = 3
 H = 4
 MAXLEN = 100
VIEW view
CONSTRAINT Bounded
INVARIANTS InRange TimesIncrease
CHECK_DEADLOCK FALSE
