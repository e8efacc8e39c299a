SPECIFICATION Spec
CONSTANTS
 Vals = {0, 1}
 HS = 1
 MaxStep = 3
 What = {"val", "grad"}
 Dts = {1, 2}
INVARIANT NeverStale
CHECK_DEADLOCK FALSE
