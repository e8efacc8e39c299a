SPECIFICATION Spec
CONSTANTS
 Vals = {0, 1}
 HS = 2
 MaxStep = 3
 What = {"val"}
 Dts = {1}
INVARIANT NeverStale
CHECK_DEADLOCK FALSE
