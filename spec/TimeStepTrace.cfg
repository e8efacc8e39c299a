SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS TOL = 12
